"""P03: range queries."""
from .. import util, gen, search, trace, walk, xmlgen as xg


def scenario(seed):
    r = util.rng('P03', seed)
    pool = [gen.numterm(r, r.randint(0, 3)) for _ in range(r.randint(3, 15))]
    for _ in range(4):
        pool.append(xg.mutated(r.choice(pool), r, [('cn', x) for x in gen.NUMS]))
    items = [{'i': 'expr', 'url': 'u%d' % i, 'id': '', 'terms': [xg.noisy(t, r, .1)]} for i, t in enumerate(pool)]
    if r.random() < .1:
        items = []
    qs = []
    for _ in range(r.randint(15, 30)):
        t = r.choice(pool)
        t = r.choice(xg.subterms(t)) if r.random() < .5 else t
        q = gen.ranged(t, r, r.choice([.2, .5, .9]))
        if r.random() < .5:
            q = xg.abstracted(q, r, .2)
        if r.random() < .1:
            q = gen.rrange(r)
        qs.append({'q': q})
    return {'files': [{'items': items}], 'queries': qs, 'modes': ['mem', 'disk'] if r.random() < .3 else ['mem']}


def run():
    rep = util.Report('P03', 'model_checking')
    search.bins()
    n = 2000 if util.THOROUGH else 150
    S = [trace.Session(scenario(i), search.ask_session, 'P03 scenario %d' % i) for i in range(n)]
    walk.model(rep, (walk.NUMBERS, 3 if util.THOROUGH else 2), idle=())
    S += walk.sessions(rep, 'P03', walk.OUT_NUMBERS, search.ask_session, subsets=40 if util.THOROUGH else 8)
    trace.check(rep, 'SearchTrace', S)
    return rep.finish()
