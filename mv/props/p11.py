"""P11: concurrent queries are answered as if each were alone."""
import os, signal
from .. import util, gen, search, httpx, trace, xmlgen as xg
from . import p10

LIMIT = 12            # clients at once, well below the 20 connections the server allows


def shim():
    return util.build_native('perturb.so', 'perturb.c', ['-shared', '-fPIC', '-O2'])


def session(sc):
    d = util.newdir('s')
    hdir = os.path.join(d, 'h')
    os.mkdir(hdir)
    search.write_harvests(hdir, sc['files'])
    ev = [search.index_event('A', sc)]
    env = {'LD_PRELOAD': shim(), 'PERTURB': str(sc['perturb']), 'PERTURB_US': str(sc['us'])} if sc['perturb'] else {}
    opt = ['-c'] if sc['ren'] else []
    if sc['mode'] == 'mem':
        srv = search.start_mwsd('-I', hdir, *opt, env=env)
    else:
        idir = os.path.join(d, 'i')
        rc, _ = search.mws_index(hdir, idir, *opt)
        ev.append({'e': 'Built', 'n': 'A', 'rc': rc})
        srv = search.start_mwsd('-D', idir, *(opt + (['-x'] if sc['mode'] == 'x' else [])), env=env)
    ev.append(search.fact('server starts', srv.up, True))
    if srv.up:
        # the answers of the idle server
        for rq in sc['idle']:
            ev.append(httpx.req_event(rq, 's', 'A', httpx.exchange(srv.port, rq)))
        for rd in sc['rounds']:
            ev += httpx.storm(srv.port, rd['clients'], 's', 'A', rd['crowd'])
            if not srv.alive():
                break
            if rd['crowd']:      # let the server notice who has gone
                for _ in range(3):
                    httpx.exchange(srv.port, sc['idle'][0])
        for rq in sc['idle']:
            if srv.alive():
                ev.append(httpx.req_event(rq, 's', 'A', httpx.exchange(srv.port, rq)))
    return p10.finish(ev, srv, sc)


def scenario(seed):
    r = util.rng('P11', seed)
    files, pool = p10.base(r, r.choice([6, 12]))
    qs = [gen.question(r, pool) for _ in range(r.choice([2, 4, 8]))]

    def rq(q, attrs):
        ev = httpx.query_events(q, attrs)
        return {'m': 'POST', 'url': '/', 'events': ev, 'body': httpx.streams.render(ev, r).decode('latin-1'),
                'chunked': r.random() < .3, 'together': r.random() < .5, 'cuts': [r.randrange(10 ** 6) for _ in range(r.choice([0, 1, 2]))]}
    idle = [rq(q, {'output': 'json', 'answsize': '100000'}) for q in qs]

    def one():
        if r.random() < .12:
            x = httpx.random_request(r, pool, .05)
            if x['m'] not in ('POST', 'GET', 'OPTIONS'):
                x['close'] = True
            return x
        a = {'output': r.choice(['json', 'json', 'xml', 'mws-ids']), 'answsize': r.choice(['100000', '100000', '3', '1'])}
        if r.random() < .3:
            a['limitmin'] = r.choice(['0', '1', '2'])
        x = rq(r.choice(qs), a)
        x['close'] = r.random() < .3
        x['leave'] = r.random() < .05
        x['reset'] = r.random() < .5
        return x
    rounds = []
    for _ in range(r.choice([1, 2])):
        crowd = r.random() < .15
        n = r.choice([24, 40]) if crowd else r.randint(2, LIMIT)
        rounds.append({'crowd': crowd, 'clients': [[one() for _ in range(r.choice([2, 4, 8]))] for _ in range(n)]})
    perturb = r.choice([0, 8, 40, 40, 200])
    return {'files': files, 'mode': r.choice(['mem', 'disk', 'mem', 'disk', 'x']), 'ren': r.random() < .3, 'idle': idle, 'rounds': rounds,
            'perturb': perturb, 'us': {0: 1, 8: 40, 40: 200, 200: 1000}[perturb]}


def large(seed):
    """Answers too large to be ready at once, with the data of one document after the other."""
    r = util.rng('P11 large', seed)
    kinds, n = r.choice([2, 4, 8]), r.choice([150, 300, 500])
    docs = r.choice([2, 7, 40])
    items = [{'i': 'data', 'id': 'd%d' % i, 'toks': ['T:doc%d %s' % (i, 'x' * r.choice([0, 10, 200]))]} for i in range(docs)]
    pad = 'p' * r.choice([0, 50, 200])
    k = 0
    for i in range(n * r.choice([1, 2])):
        t = xg.tok('ci', 'v%d' % (i % kinds))
        if r.random() < .5:
            k += 1
        items.append({'i': 'expr', 'url': 'u%d%s' % (i, pad), 'id': 'd%d' % (k % docs), 'terms': [t]})
    sc = scenario('large %s' % seed)

    def rq():
        a = {'output': r.choice(['json', 'json', 'json', 'xml']), 'answsize': r.choice(['100000', '100000', '100000', '60'])}
        if r.random() < .15:
            a['limitmin'] = r.choice(['1', '100'])
        ev = httpx.query_events(xg.tok('ci', 'v%d' % r.randrange(kinds)), a)
        return {'m': 'POST', 'url': '/', 'events': ev, 'body': httpx.streams.render(ev, r).decode('latin-1'), 'chunked': False,
                'together': True, 'cuts': [], 'close': r.random() < .1}
    idle = []
    for i in range(kinds):
        ev = httpx.query_events(xg.tok('ci', 'v%d' % i), {'output': 'json', 'answsize': '100000'})
        idle.append({'m': 'POST', 'url': '/', 'events': ev, 'body': httpx.streams.render(ev, r).decode('latin-1'), 'chunked': False, 'cuts': []})
    rounds = [{'crowd': False, 'clients': [[rq() for _ in range(10)] for _ in range(r.choice([4, 8, 12]))]}]
    sc.update(files=[{'items': items}], idle=idle, rounds=rounds, mode=r.choice(['mem', 'disk', 'disk', 'x']), ren=False)
    return sc


def model(rep):
    """Every interleaving of the handler's steps; each part of the request that is shared is refuted."""
    cfg = '''SPECIFICATION Spec
CONSTANTS Reqs={%s} Body<-Bodies2 Shared={%s}
PROPERTIES AsIfAlone %s
'''
    for reqs, live in (('"r1","r2"', 'Answered'), ('"r1","r2","r3"', '')):
        util.mc(rep, 'HandlerMC', cfg % (reqs, '', live))
    for part in ('query', 'names', 'cursor', 'output'):
        util.refuted(rep, 'HandlerMC', cfg % ('"r1","r2"', '"%s"' % part, ''), 'a shared ' + part)


def run():
    rep = util.Report('P11', 'model_checking')
    search.bins()
    shim()
    model(rep)
    S = [trace.Session(scenario(i), session, 'P11 scenario %d' % i) for i in range(400 if util.THOROUGH else 60)]
    S += [trace.Session(large(i), session, 'P11 large scenario %d' % i) for i in range(60 if util.THOROUGH else 10)]
    trace.check(rep, 'HttpTrace', S, workers=3, attempts=6)
    return rep.finish()
