"""P20: accepted crawl requests are executed exactly once, in order, as submitted."""
from .. import util, search, trace, crawl, crawlgen

CFG = '''SPECIFICATION Spec
CONSTANTS Clients={%s} Pieces=%d Mode="%s" Emit=%s
INVARIANTS AsSubmitted ExactlyOnce OnlyComplete InOrder EmitHistory
%s
'''


def model(rep):
    """Clients, the service and the crawling thread; the histories of the clients' moves are printed."""
    live = 'PROPERTY AllExecuted'
    x = util.mc(rep, 'QueueMC', CFG % ('"c1","c2"', 2, 'code', 'TRUE', live), unused=('Remove',), workers=2)
    util.mc(rep, 'QueueMC', CFG % ('"c1","c2","c3"', 2 if util.THOROUGH else 1, 'code', 'FALSE', ''), unused=('Remove',), workers=8)
    for m in ('lastpiece', 'halfway', 'oneslot', 'peek', 'twice', 'newest'):
        big = m not in ('lastpiece', 'halfway')
        util.refuted(rep, 'QueueMC', CFG % ('"c1","c2","c3"' if big else '"c1","c2"', 1 if big else 2, m, 'FALSE',
                                            live if m in ('oneslot', 'peek') else ''), m)
    return [list(x) for x in sorted({tuple(map(tuple, h)) for h in util.generated(x.out)})]


def small(r, h, hs):
    us, s = crawlgen.site(r, h, hs, r.choice([1, 2, 3]), mathp=.2, kinds=('html',), deadp=0)
    crawlgen.no_robots(r, s)
    return us, s


def replay(hists, k):
    """Histories of the model, one after the other in one service."""
    r = util.rng('P20 replay', k)
    hs = crawlgen.hosts(r, 2 * len(hists))
    sites, subs, steps = {}, [], []
    for n, hist in enumerate(hists):
        who = {}
        for c, h in zip(('c1', 'c2'), hs[2 * n:2 * n + 2]):
            us, sites[h] = small(r, h, hs)
            sub = crawlgen.submission(r, us[0], us, .3, .4, 0)
            gone = ('leave' in [a for w, a in hist if w == c])
            sub.update(pieces=2, together=False, valid=not gone, multipart=r.random() < .3)
            who[c] = len(subs)
            subs.append(sub)
        steps.append({'play': hist, 'who': who})
    return {'sites': sites, 'subs': subs, 'steps': steps, 'perturb': r.choice([0, 0, 40])}


def scenario(i):
    r = util.rng('P20', i)
    sc = crawlgen.scenario(r, r.choice([8, 16, 30]), [1, 2, 3], robotsp=.1, countp=.4, dontp=.5, mathp=.1, uselessp=.3,
                           cuts=r.choice([0, .5, 1]), groups=r.choice([0, .5, 1]), kinds=('html', 'html', 'xhtml'), deadp=0)
    hs = list(sc['sites'])
    for s in sc['subs']:
        if s['starts'] and s['valid'] and r.random() < .15:
            if r.random() < .6:
                s.update(abort=r.randrange(1, 10 ** 6), valid=False)
            else:
                s['leave'] = True
        elif s['starts'] and s['valid'] and r.random() < .1:
            # a long address, and more exclusions than a small table holds
            for j in range(r.choice([1, 130, 300])):
                v = '/nothing' + 'y' * r.randint(1, 90) + str(j)
                s.setdefault('dontraw', []).append(v)
                s['dont'].append({'h': s['u']['h'], 'v': v})
        if r.random() < .1 and s['m'] == 'POST' and s['starts']:
            s['more'] = s.get('more', []) + [('foo', 'x' * r.choice([1, 600, 3000]))]
    if r.random() < .6:                       # one site over and over, by one client
        for _ in range(r.choice([1, 2])):
            h = r.choice(list(sc['sites']))
            us = [{'h': h, 'p': u.partition('?')[0], 'q': u[len(u.partition('?')[0]):]} for u in sc['sites'][h]['pages']]
            ids = []
            for _ in range(r.choice([2, 3, 5])):
                ids.append(len(sc['subs']))
                sc['subs'].append(crawlgen.submission(r, us[0] if r.random() < .8 else r.choice(us), us, .6, .4, 0))
            sc['steps'].append({'clients': [ids]})
    if r.random() < .4:
        sc['delay'] = r.choice([.001, .01, .03])
    sc['perturb'] = r.choice([0, 0, 40, 200])
    return sc


def backlog(k):
    """Many requests answered while the first one is still being executed."""
    r = util.rng('P20 backlog', k)
    n = [130, 70, 260, 40][k % 4]
    hs = crawlgen.hosts(r, 3)
    sites, subs = {}, []
    for i, h in enumerate(hs):
        us, sites[h] = crawlgen.site(r, h, hs[:1], 1 if i else 8, mathp=0, kinds=('html',), deadp=0)
        crawlgen.no_robots(r, sites[h])
        for _ in range(1 if i == 0 else n // 2):
            subs.append(crawlgen.submission(r, us[0], us, .2, .2, 0))
    sub = list(range(1, len(subs)))
    r.shuffle(sub)
    c = r.choice([1, 2, 4])
    return {'sites': sites, 'subs': subs, 'steps': [{'clients': [[0]]}, {'clients': [sub[j::c] for j in range(c)]}], 'delay': .06 if n < 200 else .03,
            'limit': 150}


def run():
    rep = util.Report('P20', 'model_checking')
    search.need('crawlerd')
    crawl.shim()
    hists = model(rep)
    r = util.rng('P20 hists')
    r.shuffle(hists)
    rep.add('histories_generated', len(hists))
    S = [trace.Session(replay(hists[k:k + 18], k), crawl.session, 'P20 histories from %d' % k) for k in range(0, len(hists), 18)]
    S += [trace.Session(scenario(i), crawl.session, 'P20 scenario %d' % i) for i in range(400 if util.THOROUGH else 60)]
    S = [trace.Session(backlog(k), crawl.session, 'P20 backlog %d' % k) for k in range(12 if util.THOROUGH else 3)] + S
    trace.check(rep, 'CrawlTrace', S)
    return rep.finish()
