"""SearchMC: model checks of the walk through the index, and the universes it prints as harvests and questions."""
from . import util, trace, search

CFG = '''SPECIFICATION Spec
CONSTANTS NoBound=NoBound Atoms<-%s PLeaves<-%s Inner={%s} Outer={%s} K=%d Wrong="%s" Emit=%s
INVARIANTS %s
'''
TREES = ('AB', 'PA', '1', '2')
THREE = ('AB', 'PA', '', '3')
FLAT = ('AB', 'PA', '', '2')
NUMBERS = ('Nums', 'PNum', '', '2')
OUT_TREES = ('AB', 'PXYZ', '1', '2')
OUT_NESTED = ('AB', 'PA', '1,2', '2')
OUT_THREE = ('AB', 'PXYZ', '1', '3')
OUT_NUMBERS = ('NumX', 'PNuX', '1', '2')
HOLDS = 'Sound Once Complete'


def model(rep, *sigs, idle=('Range_',)):
    for sig, k in sigs:
        util.mc(rep, 'SearchMC', CFG % (sig + (k, 'no', 'FALSE', HOLDS)), unused=idle, timeout=800, workers=8)


def wrong(rep, *variants):
    for sig, k, w in variants:
        util.refuted(rep, 'SearchMC', CFG % (sig + (k, w, 'FALSE', HOLDS)), w)


def universe(rep, sig):
    """(formulae, patterns) of a signature."""
    res = util.mc(rep, 'SearchMC', CFG % (sig + (1, 'no', 'TRUE', 'EmitAll')), unused=None)
    out = {'formula': [], 'pattern': []}

    def clean(t):
        return {'t': t['t'], 'a': t['a'] or {}, 'x': t['x'], 'k': [clean(c) for c in t['k']]}
    for g in util.generated(res.out):
        out[g['k']].append(clean(g['t']))
    key = lambda t: util.json.dumps(t, sort_keys=True)
    return sorted(out['formula'], key=key), sorted(out['pattern'], key=key)


def sessions(rep, prop, sig, session, chunk=150, limit=None, subsets=4, **kw):
    """All patterns asked of an index of the whole universe; some asked of indexes of parts of it."""
    F, P = universe(rep, sig)
    r = util.rng('walk', prop, sig)
    r.shuffle(P)
    rep.add('universe_formulae', len(F))
    rep.add('universe_patterns', len(P[:limit]))
    S = []

    def one(fs, ps, label):
        fs = fs[:]
        r.shuffle(fs)
        items = [{'i': 'expr', 'url': 'u%d' % i, 'id': '', 'terms': [t]} for i, t in enumerate(fs)]
        S.append(trace.Session(dict({'files': [{'items': items}], 'queries': [{'q': q, 'id': 'q%d' % i} for i, q in enumerate(ps)],
                                     'cmp': 'pairs', 'modes': ['mem']}, **kw), session, '%s %s' % (prop, label)))
    for i in range(0, len(P[:limit]), chunk):
        one(F, P[i:min(i + chunk, limit or len(P))], 'universe %s part %d' % ('-'.join(sig), i // chunk))
    for i in range(subsets):
        one(r.sample(F, r.randint(2, max(2, len(F) // 2))), r.sample(P, min(len(P), chunk)), 'part of universe %s %d' % ('-'.join(sig), i))
    return S
