"""P17: a crawl visits each reachable allowed page once, and no page outside its site."""
from .. import util, search, trace, crawl, crawlgen

CFG = '''SPECIFICATION Spec
CONSTANTS NoBound=NoBound NPages=%d MaxLinks=%d Mode="%s" Emit=%s
INVARIANTS EachOnce OnlyReachable NearestFirst InOrder AllOfThem EmitSite
%s
'''


def model(rep):
    """The queue of the crawler against reachability; every small link graph is printed."""
    x = util.mc(rep, 'CrawlMC', CFG % (3, 2, 'code', 'TRUE', ''), workers=8)
    graphs = util.generated(x.out)
    util.mc(rep, 'CrawlMC', CFG % (3, 1, 'code', 'FALSE', 'PROPERTY Finishes'))
    if util.THOROUGH:
        util.mc(rep, 'CrawlMC', CFG % (4, 1, 'code', 'FALSE', ''), workers=8)
        util.mc(rep, 'CrawlMC', CFG % (2, 4, 'code', 'FALSE', ''), workers=8)
    for m in ('nodedupe', 'lateseen', 'stack', 'startonly'):
        util.refuted(rep, 'CrawlMC', CFG % ({'nodedupe': (2, 2), 'startonly': (3, 1)}.get(m, (3, 2)) + (m, 'FALSE', '')), m, workers=8)
    return graphs


def of_graph(r, g, h, far):
    """A site and a submission for a graph of the model."""
    pages = {}
    for p, links in g.items():
        ls = [{'h': h if x[0] == 'h' else far, 'p': x[1:], 'q': ''} for x in links]
        pages[p] = crawl.render(r, {'h': h, 'p': p, 'q': ''}, {'kind': r.choice(['html', 'html', 'xhtml', 'other']), 'links': ls, 'math': []})
    s = {'pages': pages, 'robots': None}
    crawlgen.no_robots(r, s)
    start = {'h': h, 'p': '/', 'q': ''}
    sub = {'m': 'POST', 'starts': True, 'valid': True, 'u': start, 'count': -1, 'dont': [], 'urlstart': crawl.url(start), 'together': True}
    c = r.choice([None, None, None, 1, 2, 3])
    if c:
        sub.update(cnt=str(c), count=c)
    rule = r.choice([None, None, '/a/', '/a', '/a/b'])
    if rule and r.random() < .5:
        sub.update(dontraw=[rule], dont=[{'h': h, 'v': rule}])
    elif rule:
        crawlgen.set_robots(r, s, ['User-agent: *', 'Disallow: ' + rule])
    return s, sub


def enumerated(graphs, per, rng):
    out = []
    for k in range(0, len(graphs), per):
        r = util.rng(rng, k)
        gs = graphs[k:k + per]
        hs = crawlgen.hosts(r, len(gs) + 1)
        sites, subs = {hs[-1]: {'pages': {}, 'robots': []}}, []
        for g, h in zip(gs, hs):
            sites[h], sub = of_graph(r, g, h, hs[-1])
            subs.append(sub)
        out.append({'sites': sites, 'subs': subs, 'steps': [{'clients': [list(range(len(subs)))]}]})
    return out


def scenario(i):
    r = util.rng('P17', i)
    return crawlgen.scenario(r, r.choice([10, 20]), r.choice([[1, 3, 6, 10], [2, 3], [12, 18]]), robotsp=.2, countp=.4, dontp=.2,
                             mathp=.1, uselessp=0, cuts=0, groups=0, deadp=r.choice([0, .1, .3]))


def run():
    rep = util.Report('P17', 'model_checking')
    search.need('crawlerd')
    crawl.shim()
    graphs = model(rep)
    r = util.rng('P17 graphs')
    r.shuffle(graphs)
    if not util.THOROUGH:
        graphs = graphs[:2400]
    rep.add('sites_generated', len(graphs))
    S = [trace.Session(sc, crawl.session, 'P17 link graphs part %d' % i) for i, sc in enumerate(enumerated(graphs, 100, 'P17 e'))]
    S += [trace.Session(scenario(i), crawl.session, 'P17 scenario %d' % i) for i in range(320 if util.THOROUGH else 40)]
    trace.check(rep, 'CrawlTrace', S)
    return rep.finish()
