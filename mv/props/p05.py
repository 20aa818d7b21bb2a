"""P05: an index on disk answers like the index it was built from."""
import os
from .. import util, gen, search, trace, family, xmlgen as xg


def session(sc):
    """One harvest; memory server, two builds, each served several times; same questions everywhere."""
    d = util.newdir('s')
    hdir = os.path.join(d, 'h')
    os.mkdir(hdir)
    search.write_harvests(hdir, sc['files'])
    ev = [search.index_event('A', sc), {'e': 'Alias', 'n': 'B', 'of': 'A'}]

    def serve(srv, n, label):
        ev.append(search.fact('server starts (%s)' % label, srv.up, True))
        if not srv.up:
            srv.kill()
            return
        for q in sc['queries']:
            ev.append(search.ask_event(srv, label, n, q))
            for off, size in q.get('ids', ()):
                ev.append(search.ids_event(srv, n + label[0], q['q'], off, size) if label == 'mem' else
                          search.ids_event(srv, n, q['q'], off, size))
            if not srv.alive():
                break
        ev.append(search.fact('server alive (%s)' % label, srv.alive(), True))
        ev.append(search.fact('exit code after SIGTERM (%s)' % label, srv.stop(), 0))

    ren = ['-c'] if sc.get('ren') else []
    nodata = ['-n'] if sc.get('data', True) is False else []
    ev.append({'e': 'Alias', 'n': 'Am', 'of': 'A'})
    serve(search.start_mwsd('-I', hdir, *ren, *nodata), 'A', 'mem')
    for n in 'AB':
        idir = os.path.join(d, 'i' + n)
        if sc.get('bymwsd') and n == 'B':
            # mwsd builds the missing index itself, then serves it
            srv = search.start_mwsd('-D', idir, '-I', hdir, *ren, *nodata)
            if not any(it['i'] == 'expr' and it['terms'] for f in sc['files'] for it in f['items']):
                srv.kill()
                continue
            serve(srv, n, 'built and served')
        else:
            rc, out = search.mws_index(hdir, idir, *ren)
            ev.append({'e': 'Built', 'n': n, 'rc': rc})
            if rc:
                continue
        for k in range(sc.get('restarts', 1)):
            serve(search.start_mwsd('-D', idir, *ren), n, 'disk%d' % k)
    return ev


def scenario(seed):
    r = util.rng('P05', seed)
    c = r.random()
    leaves, heads, maxk = xg.LEAVES, xg.HEADS, 3
    if c < .25:           # many symbols: wide index nodes
        leaves = [('ci', 'v%d' % i) for i in range(r.choice([30, 300]))] + xg.LEAVES
        heads = [('csymbol', 'h%d' % i) for i in range(60)] + xg.HEADS
    elif c < .4:
        maxk = r.choice([8, 40])
    files, pool = gen.harvest(r, r.choice([1, 2, 3]), r.randint(2, 40 if c < .25 else 12), r.randint(1, 3), datap=.3,
                              leaves=leaves, heads=heads, maxk=maxk, limit=60)
    if r.random() < .1:   # symbols that look like the dictionary's own syntax
        for f in files:
            for it in f['items']:
                if it['i'] == 'expr':
                    it['terms'].append(xg.tok('ci', r.choice(['a#b', '#', '12', '0', '~1', 'é', 'a"b', '\\', 'a,b', '<>&'])))
    asked = []
    if r.random() < .08:  # long symbols
        n = r.choice([64, 256, 1024, 4096, 5000])
        long = [xg.tok(r.choice(['ci', 'ci', 'cn', 'csymbol']), 'x' + 'y' * n + e) for e in ('', 'z')]
        long.append(xg.tok('apply', '', [xg.tok('plus'), r.choice(long), xg.tok('ci', 'a')]))
        for k, t in enumerate(long):
            r.choice(files)['items'].append({'i': 'expr', 'url': 'long%d' % k, 'id': '', 'terms': [t]})
        asked = [{'q': t, 'ids': [(0, 1000)]} for t in long]
    qs = asked + [{'q': gen.question(r, pool, leaves), 'ids': [(0, 1000)]} for _ in range(r.randint(8, 14))]
    qs.append({'q': xg.qvar(''), 'ids': [(0, 100000)]})
    bymwsd = r.random() < .3
    ren = r.random() < .2
    return {'files': files, 'queries': qs, 'restarts': r.choice([1, 2]), 'bymwsd': bymwsd, 'ren': ren,
            # mws-index always stores data; mwsd can be told not to
            'data': True}


def run():
    rep = util.Report('P05', 'model_checking')
    search.bins()
    n = 700 if util.THOROUGH else 60
    S = [trace.Session(scenario(i), session, 'P05 scenario %d' % i) for i in range(n)]
    r = util.rng('P05 symbols')
    S = [trace.Session(family.many_symbols(0, 66000, ['disk']), family.session, 'P05 66000 symbols')] + S
    S += [trace.Session(family.many_symbols(i, r.choice([200, 256, 300, 1000, 5000]), ['disk']), family.session, 'P05 many symbols %d' % i)
          for i in range(1, 21 if util.THOROUGH else 5)]
    trace.check(rep, 'SearchTrace', S)
    return rep.finish()
