"""P15: schemata partition the submitted formulae."""
import json
from .. import util, gen, search, trace, schema, httpx, streams, xmlgen as xg

CI = [('ci', c) for c in 'abxy'] + [('ci', 'long'), ('cn', '1'), ('csymbol', 'pi')]


def variants(r, base):
    """Formulae that fall into the same class at some depth and not at another."""
    c = r.random()
    t = json.loads(json.dumps(base))
    if c < .3:
        return t
    if c < .5:
        return xg.noisy(t, r)
    if c < .7:                                    # another name for an identifier
        for s in xg.subterms(t):
            if s['t'] == 'ci' and len(s['x']) < 2 and not s['k']:
                s['x'] = r.choice('abxyzw') if r.random() < .4 else s['x']
        return t
    return xg.mutated(t, r, CI)


def attrs(r):
    a = {}
    if r.random() < .85:
        a['output'] = r.choice(['json', 'json', 'json', 'xml', 'mws-ids', 'other'])
    if r.random() < .7:
        a['answsize'] = str(r.choice([0, 0, 1, 2, 3, 5, 30, 100, 1000]))
    if r.random() < .85:
        a['schema_depth'] = str(r.choice([0, 1, 1, 2, 2, 3, 4, 6, 50, 100]))
    if r.random() < .5:
        a['cutoff_mode'] = r.choice(['A', 'R', 'R', 'absolute', 'Relative', 'r'])
        if a['cutoff_mode'][0] == 'R':
            a['schema_depth'] = str(r.choice([0, 20, 34, 50, 50, 67, 100, 100, 120]))
    if r.random() < .1:
        a['limitmin'] = '1'
    return a


def formulae(r, n):
    seeds = [xg.rterm(r, r.randint(1, 4), CI) for _ in range(r.choice([1, 2, 3, 6]))]
    ts = [variants(r, r.choice(seeds)) for _ in range(n)]
    if r.random() < .25:                          # beyond what can be encoded
        for _ in range(r.choice([1, 2])):
            ts.insert(r.randrange(len(ts) + 1), xg.tok('set', '', [xg.tok('ci', 'a') for _ in range(r.choice([255, 256, 300]))]))
    if r.random() < .08:
        ts.insert(r.randrange(len(ts) + 1), xg.abstracted(ts[0], r, .4))
    return [schema.with_xrefs(t, r, r.choice([0, .7, 1]), 'f%d' % i) for i, t in enumerate(ts)]


def request(r, ren):
    rq = schema.request(formulae(r, r.choice([1, 2, 3, 5, 10, 25, 60])), attrs(r), ren, r)
    rq.update(chunked=r.random() < .3, together=r.random() < .5, cuts=[r.randrange(10 ** 6) for _ in range(r.choice([0, 0, 1, 3]))])
    return rq


def anyrequest(r, ren):
    if r.random() < .75:
        return request(r, ren)
    rq = httpx.random_request(r, [xg.rterm(r, 3, CI) for _ in range(3)])
    rq['schema'] = {'ren': ren}
    return rq


def scenario(seed):
    r = util.rng('P15', seed)
    ren = r.random() < .5
    return {'ren': ren, 'reqs': [anyrequest(r, ren) for _ in range(8)]}


def by_rule(sc):
    """Requests of n formulae of w symbols which occur nowhere else (SFam in spec/SchemaTrace.tla)."""
    srv = schema.start()
    ev = [search.fact('server starts', srv.up, True)]
    n, w = sc['n'], sc['w']
    ts = [xg.tok('apply', '', [xg.tok('plus')] + [xg.tok('ci', 's%d' % (i * w + j)) for j in range(w)]) for i in range(n)]
    for d in sc['depths']:
        rq = schema.request(ts, {'output': 'json', 'schema_depth': str(d), 'answsize': '0'}, False, util.rng('P15 rule', n, w))
        e = httpx.req_event(rq, 's', '', httpx.exchange(srv.port, rq)) if srv.alive() else None
        if e is None:
            break
        if n * w < 200:
            ev.append(e)
        ev.append({'e': 'SFam', 'n': n, 'width': w, 'depth': d,
                   **{k: e[k] for k in ('s', 'status', 'bad', 'total', 'size', 'schemata')}})
    from . import p10
    return p10.finish(ev, srv, sc)


def stormy(sc):
    from . import p10, p11
    env = {'LD_PRELOAD': p11.shim(), 'PERTURB': str(sc['perturb']), 'PERTURB_US': '200'} if sc['perturb'] else {}
    srv = schema.start(*(['-c'] if sc['ren'] else []), env=env)
    ev = [search.fact('server starts', srv.up, True)]
    if srv.up:
        ev += httpx.storm(srv.port, sc['clients'], 's', '')
    return p10.finish(ev, srv, sc)


def storm(seed):
    r = util.rng('P15 storm', seed)
    ren = r.random() < .5
    pool = [request(r, ren) for _ in range(4)]
    return {'ren': ren, 'perturb': r.choice([0, 40]), 'clients': [[dict(r.choice(pool), close=r.random() < .3) for _ in range(3)] for _ in range(r.choice([3, 8, 12]))]}


def run():
    rep = util.Report('P15', 'model_checking')
    search.need('schemad')
    from . import p16, p11
    p11.shim()
    terms = p16.model(rep)
    S = [trace.Session(sc, schema.session, 'P15 all small terms part %d' % i) for i, sc in enumerate(p16.enumerated(terms, True))]
    S += [trace.Session(scenario(i), schema.session, 'P15 scenario %d' % i) for i in range(1500 if util.THOROUGH else 130)]
    S += [trace.Session({'n': n, 'w': w, 'depths': [1, 2, 7]}, by_rule, 'P15 %d formulae of %d symbols' % (n, w))
          for n, w in [(1, 3), (7, 5), (20, 9), (300, 3), (272, 250)] + ([(1000, 100), (5000, 20), (2500, 250)] if util.THOROUGH else [])]
    trace.check(rep, 'SchemaTrace', S)
    S = [trace.Session(storm(i), stormy, 'P15 concurrent requests %d' % i) for i in range(100 if util.THOROUGH else 10)]
    trace.check(rep, 'SchemaTrace', S, workers=3, attempts=6)
    return rep.finish()
