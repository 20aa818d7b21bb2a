"""P01: search is sound and complete."""
from .. import util, gen, search, trace, walk, family


def scenario(seed):
    r = util.rng('P01', seed)
    files, pool = gen.harvest(r, r.choice([1, 1, 2, 3]), r.randint(2, 10), r.randint(1, 3))
    qs = [{'q': gen.question(r, pool)} for _ in range(r.randint(15, 30))]
    return {'files': files, 'queries': qs, 'cmp': 'pairs', 'modes': ['mem']}


def run():
    rep = util.Report('P01', 'model_checking')
    search.bins()
    r = util.rng('P01 symbols')
    n = 2000 if util.THOROUGH else 150
    S = [trace.Session(scenario(i), search.ask_session, 'P01 scenario %d' % i) for i in range(n)]
    walk.model(rep, (walk.TREES, 3 if util.THOROUGH else 2), (walk.THREE, 2), (walk.FLAT, 4 if util.THOROUGH else 3))
    walk.wrong(rep, (walk.FLAT, 3, 'bindings stay'), (walk.FLAT, 3, 'jump back too far'), (walk.FLAT, 3, 'first branch only'),
               (walk.TREES, 2, 'bound variables match anything of that length'))
    for sig in (walk.OUT_TREES, walk.OUT_NESTED, walk.OUT_THREE):
        S += walk.sessions(rep, 'P01', sig, search.ask_session, limit=None if util.THOROUGH else 600, subsets=40 if util.THOROUGH else 4)
    S = [trace.Session(family.many_symbols(0, 66000, ['mem']), family.session, 'P01 66000 symbols')] + S
    S += [trace.Session(family.many_symbols(i, r.choice([200, 256, 300, 1000, 5000]), ['mem']), family.session, 'P01 many symbols %d' % i)
          for i in range(1, 21 if util.THOROUGH else 5)]
    trace.check(rep, 'SearchTrace', S)
    return rep.finish()
