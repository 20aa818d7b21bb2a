"""P23: the alternative query engine agrees with the default one."""
from .. import util, gen, search, trace, walk, family, xmlgen as xg
from ..xmlgen import tok, qvar


def session(sc):
    """Default engine and alternative engine over one index on disk: the default engine's full list is the reference."""
    import os
    d = util.newdir('s')
    hdir, idir = os.path.join(d, 'h'), os.path.join(d, 'i')
    os.mkdir(hdir)
    search.write_harvests(hdir, sc['files'])
    ev = [search.index_event('A', sc)]
    rc, out = search.mws_index(hdir, idir, *(['-c'] if sc.get('ren') else []))
    ev.append({'e': 'Built', 'n': 'A', 'rc': rc})
    if rc:
        return ev
    for mode in ('default', 'experimental'):
        srv = search.start_mwsd('-D', idir, *(['-c'] if sc.get('ren') else []), *(['-x'] if mode == 'experimental' else []))
        ev.append(search.fact('server starts (%s)' % mode, srv.up, True))
        if not srv.up:
            srv.kill()
            continue
        for q in sc['queries']:
            ev.append(search.ask_event(srv, mode, 'A', q))
            for off, size in q.get('pages', ()):
                ev.append(search.page_event(srv, mode, q['id'], q['q'], off, size))
            if not srv.alive():
                break
        ev.append(search.fact('server alive (%s)' % mode, srv.alive(), True))
        ev.append(search.fact('exit code after SIGTERM (%s)' % mode, srv.stop(), 0))
    return ev


def scenario(seed):
    r = util.rng('P23', seed)
    files, pool = gen.harvest(r, r.choice([1, 2]), r.randint(2, 15), r.randint(1, 3), datap=.1)
    qs = []
    for k in range(r.randint(10, 20)):
        pg = [(r.randint(0, 12), r.randint(0, 12)) for _ in range(3)] + [(None, None)]
        qs.append({'q': gen.question(r, pool), 'id': 'q%d' % k, 'pages': pg})
    return {'files': files, 'queries': qs, 'ren': r.random() < .15}


def large(seed, n):
    """A formula of more than 2n tokens, and variables bound to n of them at once, again and again."""
    r = util.rng('P23 large', seed)
    w = r.choice([30, 100, 200])
    t = tok('apply', '', [tok('plus')] + [tok('ci', 'a%d' % r.randint(0, 6)) for i in range(w)])
    while xg.size(t) < n:
        t = tok('apply', '', [tok('plus')] + [t] * min(w, -(-n // xg.size(t))))
    one = tok('apply', '', [tok('eq'), t, t])
    other = tok('apply', '', [tok('eq'), t, tok('apply', '', [tok('plus'), t])])
    x, y = qvar('x'), qvar('y')
    Q = [tok('apply', '', [tok('eq'), x, x]), tok('apply', '', [tok('eq'), t, x]), tok('apply', '', [tok('eq'), x, t]),
         tok('apply', '', [tok('eq'), x, y]), tok('apply', '', [x, y, tok('apply', '', [tok('plus'), y])])]
    terms = [one, other][:r.randint(1, 2)]
    if n > 10000 and not util.THOROUGH:
        terms, Q = [one], Q[:2]
    return {'files': [{'items': [{'i': 'expr', 'url': 'u%d' % i, 'id': '', 'terms': [f]} for i, f in enumerate(terms)]}],
            'queries': [{'q': q, 'id': 'q%d' % i} for i, q in enumerate(Q)]}


def run():
    rep = util.Report('P23', 'model_checking')
    search.bins()
    n = 800 if util.THOROUGH else 80
    S = [trace.Session(scenario(i), session, 'P23 scenario %d' % i) for i in range(n)]
    walk.model(rep, (walk.THREE, 2))
    for sig in (walk.OUT_THREE, walk.OUT_NESTED):
        S += walk.sessions(rep, 'P23', sig, session, limit=None if util.THOROUGH else 600, subsets=40 if util.THOROUGH else 6)
    r = util.rng('P23 symbols')
    S += [trace.Session(family.many_symbols(i, r.choice([200, 256, 300, 1000, 5000]), ['disk', 'x']), family.session, 'P23 many symbols %d' % i)
          for i in range(1, 21 if util.THOROUGH else 4)]
    S += [trace.Session(family.at_the_cap(i), family.session, 'P23 scenario at the cap %d' % i) for i in ((2,) if not util.THOROUGH else range(2, 60, 3))]
    S += [trace.Session(large(i, n), session, 'P23 large %d %d' % (i, n))
          for i, n in enumerate([120, 300, 1500, 6000, 34000] * (3 if util.THOROUGH else 1) + ([20000, 40000] if util.THOROUGH else []))]
    trace.check(rep, 'SearchTrace', S)
    return rep.finish()
