"""P19: all math found by a crawl ends up in well-formed harvest files."""
from .. import util, search, trace, crawl, crawlgen, xmlgen as xg


BLOCKS = '''SPECIFICATION Spec
CONSTANTS MaxTags=%d Mode="%s" Emit=%s
INVARIANTS FindsAll EachOnce EmitPage
'''
PACK = '''SPECIFICATION Spec
CONSTANTS Limit=3 MaxFound=%d MaxCrawls=2 MaxTime=1 Mode="%s"
INVARIANTS NothingLost EachOnce NamesDiffer
PROPERTY StoredStays
'''


def model(rep):
    """Finding formulae in a page, and storing them; pages of every arrangement of math tags are printed."""
    x = util.mc(rep, 'BlocksMC', BLOCKS % (7 if util.THOROUGH else 6, 'code', 'TRUE'), workers=8)
    for m in ('negative', 'skips', 'inner'):
        util.refuted(rep, 'BlocksMC', BLOCKS % (5, m, 'FALSE'), m)
    util.mc(rep, 'PackMC', PACK % (8 if util.THOROUGH else 6, 'code'))
    for m in ('overwrite', 'lastpage', 'keeps'):
        util.refuted(rep, 'PackMC', PACK % (5, m), m)
    return util.generated(x.out)


def arranged(gens, k):
    """Pages with the arrangements of math tags which the model printed."""
    r = util.rng('P19 arranged', k)
    h, = crawlgen.hosts(r, 1)
    pages, n = {}, 0
    root = {'h': h, 'p': '/', 'q': ''}
    links = []
    for g in gens:
        n += 1
        p = '/%d' % n
        links.append({'h': h, 'p': p, 'q': ''})
        body, tree, stack = '', [], []
        for i, t in enumerate(g['page']):
            if t == 'x':
                body += r.choice(['text', '<mi>x</mi>', ' ', '<p>a</p>', '<!-- c -->']) if not stack else '<mi>y</mi>'
                if stack:
                    stack[-1]['k'].append(xg.tok('mi', 'y'))
                continue
            e = xg.tok('math')
            if t == 'open' and r.random() < .4 or t == 'self' and r.random() < .3:
                e['a']['id'] = 'f%d' % i
            at = ''.join(' %s="%s"' % kv for kv in e['a'].items())
            if t == 'close':
                body += '</math>'
                if stack:
                    stack.pop()
                continue
            (stack[-1]['k'] if stack else tree).append(e)
            body += '<math%s%s>' % (at, r.choice(['/', ' /']) if t == 'self' else '')
            if t == 'open':
                stack.append(e)
        ms = [{'id': e['a'].get('id', ''), 't': bareids(e)} for e in tree]
        if len(ms) != len(g['found']):
            raise util.CheckError('arrangement %s' % g)
        pages[p] = {'kind': 'html', 'links': [], 'math': ms, 'ctype': 'text/html', 'body': '<html><body>%s</body></html>' % body}
    pages['/'] = crawl.render(r, root, {'kind': 'html', 'links': links, 'math': []})
    s = {'pages': pages, 'robots': None}
    crawlgen.no_robots(r, s)
    return {'sites': {h: s}, 'subs': [crawlgen.submission(r, root, [root], 0, 0, 0)], 'steps': [{'clients': [[0]]}]}


def bareids(e):
    return dict(e, a={}, k=[bareids(k) for k in e['k']])


def scenario(i):
    r = util.rng('P19', i)
    kw = {}
    if r.random() < .3:
        kw['dir'] = r.choice(['sub', 'a b', 'x/y', 'é', 'with space/and more'])
    sc = crawlgen.scenario(r, r.choice([6, 12, 20]), r.choice([[1, 2], [3, 6], [8]]), robotsp=.1, countp=.1, dontp=.1,
                           mathp=r.choice([.5, 1, 1]), uselessp=0, cuts=0, groups=r.choice([0, .5]), deadp=.05,
                           kinds=r.choice([('html',), ('xhtml',), ('html', 'xhtml'), ('html', 'xhtml', 'other')]), **kw)
    return sc


def packs(i):
    """More formulae than one harvest file is given, over pages of different sizes."""
    r = util.rng('P19 packs', i)
    hs = crawlgen.hosts(r, 2)
    sites, subs = {}, []
    for sizes, h in zip(([3000, 2000, 10], [4999, 1, 5001, 3]) if i % 2 else ([5000], [6000, 0, 4000]), hs):
        us = [{'h': h, 'p': '/%d' % k, 'q': ''} for k in range(len(sizes))]
        pages = {}
        for k, (u, n) in enumerate(zip(us, sizes)):
            kind = r.choice(['html', 'xhtml'])
            ms = []
            for j in range(n):
                t = xg.tok('ci', 'v%d' % j)
                ms.append({'id': 'i%d' % j if j % 3 else '', 'g': j, 't': t if kind == 'xhtml' else xg.tok('math', '', [t])})
            ls = [{'h': h, 'p': '/%d' % (k + 1), 'q': ''}] if k + 1 < len(sizes) else []
            pages[crawlgen.key(u)] = crawl.render(r, u, {'kind': kind, 'links': ls, 'math': ms})
        s = {'pages': pages, 'robots': None}
        crawlgen.no_robots(r, s)
        sites[h] = s
        subs.append(crawlgen.submission(r, us[0], us, 0, 0, 0))
    return {'sites': sites, 'subs': subs, 'steps': [{'clients': [[0, 1]]}]}


def run():
    rep = util.Report('P19', 'model_checking')
    search.need('crawlerd')
    crawl.shim()
    gens = model(rep)
    rep.add('pages_generated', len(gens))
    S = [trace.Session(arranged(gens[k:k + 150], k), crawl.session, 'P19 tag arrangements from %d' % k) for k in range(0, len(gens), 150)]
    S += [trace.Session(packs(i), crawl.session, 'P19 packs %d' % i) for i in range(2)]
    S += [trace.Session(scenario(i), crawl.session, 'P19 scenario %d' % i) for i in range(600 if util.THOROUGH else 80)]
    trace.check(rep, 'CrawlTrace', S)
    return rep.finish()
