"""P24: an analysis of a saved index is shown every formula once, as it was indexed, with the number of its hits."""
from .. import util, gen, search, trace, walk, analysis, xmlgen as xg
from ..xmlgen import tok

CFG = '''SPECIFICATION Spec
CONSTANTS NoBound=NoBound Leaves={%s} Inner={%s} Outer={%s} K=%d Wrong="%s"
INVARIANTS Right Current Once Complete NothingLeft
'''
LETTERS = [('ci', c) for c in 'abxyzpP'] + [('ci', 'long'), ('csymbol', 'a'), ('cn', '1'), ('ci', 'éa'), ('ci', 'a#b'), ('ci', '')]


def model(rep):
    for sig in ([('"a","b"', '1,2', '2', 2), ('"a"', '1,2', '2', 3)] if not util.THOROUGH else
                [('"a","b"', '1,2', '2', 2), ('"a"', '1,2', '2', 4), ('"a"', '1,2,3', '1,2', 2)]):
        util.mc(rep, 'AnalysisMC', CFG % (sig + ('no',)), timeout=800, workers=8)
    for w in ('place lost', 'places stay', 'oldest first'):
        util.refuted(rep, 'AnalysisMC', CFG % ('"a","b"', '1,2', '2', 2, w), w)


def scenario(seed):
    r = util.rng('P24', seed)
    ren = r.random() < .4
    leaves = r.choice([xg.LEAVES, LETTERS + ([] if ren else [('ci', '~1'), ('ci', '~'), ('ci', 'é')]), LETTERS[:4]])
    files, pool = gen.harvest(r, r.choice([1, 1, 2]), r.randint(1, 12), r.randint(1, 4), datap=.1, leaves=leaves,
                              maxk=r.choice([2, 3, 3, 6]))
    items = files[0]['items']
    c = r.random()
    if c < .15:                            # wide
        n = r.choice([20, 127, 128, 200, 254, 255, 256])
        t = tok(r.choice(['apply', 'set']), '', [tok('plus')] + [r.choice(pool) if r.random() < .05 else tok(*r.choice(leaves)) for _ in range(n - 1)])
        items.append({'i': 'expr', 'url': 'wide', 'id': '', 'terms': [t]})
    elif c < .3:                           # deep
        t = r.choice(pool)
        for i in range(r.choice([10, 40, 120, 200])):
            k = [t]
            for _ in range(r.choice([0, 0, 1, 2])):
                k.insert(r.randint(0, len(k)), tok(*r.choice(leaves)))
            t = tok('apply', '', k)
        items.append({'i': 'expr', 'url': 'deep', 'id': '', 'terms': [t]})
    elif c < .45:                          # the same again and again
        for i in range(r.choice([5, 100, 300])):
            items.append({'i': 'expr', 'url': 'again%d' % i, 'id': '', 'terms': [pool[0]]})
    return {'files': files, 'stops': [-1] + [r.choice([0, 1, 2, 5, 1000]) for _ in range(r.randint(0, 2))], 'ren': ren}


def universes(rep):
    out = []
    r = util.rng('P24 universes')
    for sig in (walk.OUT_TREES, walk.OUT_NESTED, walk.OUT_THREE):
        F, _ = walk.universe(rep, sig)
        rep.add('universe_formulae', len(F))
        for k in [len(F)] + [r.randint(1, len(F)) for _ in range(40 if util.THOROUGH else 4)]:
            fs = r.sample(F, k)
            items = [{'i': 'expr', 'url': 'u%d' % i, 'id': '', 'terms': [t]} for i, t in enumerate(fs)]
            for ren in (False, True):
                out.append(trace.Session({'files': [{'items': items}], 'stops': [-1, r.randint(0, k)], 'ren': ren}, analysis.session,
                                         'P24 %d formulae of universe %s' % (k, '-'.join(sig))))
    return out


def crowd(seed):
    """Few formulae, very many hits."""
    r = util.rng('P24 crowd', seed)
    n = r.choice([65535, 65536, 65537, 70000, 131073, 200000] if seed % 3 == 0 else [255, 256, 257, 1000, 4096, 32769])
    t = r.choice([tok('ci', 'a@'), tok('apply', '', [tok('ci', 'f'), tok('ci', 'a@')]), tok('apply', '', [tok('plus'), tok('ci', 'a@'), tok('ci', 'a@')])])
    return {'family': {'count': n, 'period': r.choice([1, 1, 2, 5]), 'docs': r.choice([0, 0, 2]), 't': t}, 'stops': [-1] + r.choice([[], [1]]),
            'ren': r.random() < .3}


def run():
    rep = util.Report('P24', 'model_checking')
    search.need('analyze_example')
    analysis.dump()
    model(rep)
    S = universes(rep)
    S += [trace.Session(scenario(i), analysis.session, 'P24 scenario %d' % i) for i in range(1500 if util.THOROUGH else 150)]
    S = [trace.Session(crowd(i), analysis.session, 'P24 crowd %d' % i) for i in range(40 if util.THOROUGH else 7)] + S
    trace.check(rep, 'AnalysisTrace', S)
    return rep.finish()
