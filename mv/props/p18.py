"""P18: a crawl never follows a link that robots.txt or the request excludes."""
from .. import util, search, trace, crawl, crawlgen

CFG = '''SPECIFICATION Spec
CONSTANTS NoBound=NoBound MaxLines=%d Mode="%s" Emit=%s
INVARIANTS ReadAsMeant EmitFile
'''
PAGES = ['/', '/a', '/b', '/c', '/a/x', '/ab', '/b?q=1']


def model(rep):
    """The reading of robots.txt against its meaning; every small file is printed."""
    x = util.mc(rep, 'RobotsMC', CFG % (5 if util.THOROUGH else 4, 'code', 'TRUE'), workers=8)
    for m in ('ends', 'lastagent'):
        util.refuted(rep, 'RobotsMC', CFG % (4, m, 'FALSE'), m)
    return util.generated(x.out)


def enumerated(files, per):
    out = []
    for k in range(0, len(files), per):
        r = util.rng('P18 e', k)
        fs = files[k:k + per]
        sites, subs = {}, []
        for f, h in zip(fs, crawlgen.hosts(r, len(fs))):
            ls = [{'h': h, 'p': p.partition('?')[0], 'q': ''.join(p.partition('?')[1:])} for p in PAGES[1:]]
            start = {'h': h, 'p': '/', 'q': ''}
            s = {'pages': {'/': crawl.render(r, start, {'kind': 'html', 'links': ls, 'math': []})}, 'robots': None}
            crawlgen.set_robots(r, s, f)
            sites[h] = s
            subs.append({'m': 'POST', 'starts': True, 'valid': True, 'u': start, 'count': -1, 'dont': [], 'urlstart': crawl.url(start), 'together': True})
        out.append({'sites': sites, 'subs': subs, 'steps': [{'clients': [list(range(len(subs)))]}]})
    return out


def scenario(i):
    r = util.rng('P18', i)
    return crawlgen.scenario(r, r.choice([10, 20]), r.choice([[3, 6, 10], [12, 18]]), robotsp=.8, countp=.1, dontp=.6,
                             mathp=0, uselessp=.05, cuts=.1, groups=0, deadp=.05)


def run():
    rep = util.Report('P18', 'model_checking')
    search.need('crawlerd')
    crawl.shim()
    files = model(rep)
    r = util.rng('P18 files')
    r.shuffle(files)
    files = files[:8000 if util.THOROUGH else 1200]
    rep.add('robots_files_generated', len(files))
    S = [trace.Session(sc, crawl.session, 'P18 robots files part %d' % i) for i, sc in enumerate(enumerated(files, 100))]
    S += [trace.Session(scenario(i), crawl.session, 'P18 scenario %d' % i) for i in range(400 if util.THOROUGH else 60)]
    trace.check(rep, 'CrawlTrace', S)
    return rep.finish()
