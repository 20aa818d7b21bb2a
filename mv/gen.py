"""Generators of harvests and questions shared by the search checks."""
from . import xmlgen as xg
from .xmlgen import tok, qvar


RICH = [('ci', 'alpha'), ('ci', 'alphabet'), ('ci', 'ab&cd'), ('ci', 'cd'), ('ci', '<='), ('cn', '3.14159'), ('cn', '-2'), ('cn', '00'),
        ('csymbol', 'sin'), ('ci', 'x1'), ('ci', 'x' * 330 + 'y'), ('ci', 'x' * 330 + 'z'), ('ci', 'q"uo\'te'), ('ci', 'na\u00efve'),
        ('csymbol', '\u211d2'), ('ci', 'a#b'), ('csymbol', '#'), ('ci', '\U0001d538b'), ('ci', 'A'), ('mi', 'a'), ('cs', 'a>b'),
        ('ci', ']]'), ('ci', '\u00e9' * 200 + 'x'), ('sep', ''), ('ci', '&amp;')]


def vocabulary(r):
    """The leaves of a scenario: short ones, or some of other shapes too (one choice for each random source)."""
    if not hasattr(r, 'leaves'):
        r.leaves = xg.LEAVES if r.random() < .5 else r.sample(xg.LEAVES, 4) + r.sample(RICH, 6)
    return r.leaves


def related_terms(r, n, depth, limit=40, leaves=None, heads=xg.HEADS, maxk=3):
    """n terms of which many are variations of one another."""
    leaves = leaves or vocabulary(r)
    pool = []
    while len(pool) < n:
        c = r.random()
        if pool and c < .35:
            t = xg.mutated(r.choice(pool), r, leaves)
        elif pool and c < .45:
            t = r.choice(pool)
        elif pool and c < .58:
            t = tok('apply', '', [tok('eq'), r.choice(pool), r.choice(pool)])
        elif pool and c < .64:
            t = r.choice(xg.subterms(r.choice(pool)))
        else:
            t = xg.rterm(r, r.randint(0, depth), leaves, heads, maxk)
        if xg.size(t) > limit:
            t = xg.rterm(r, 2, leaves, heads, maxk)
        pool.append(t)
    return pool


def harvest(r, nfiles, nexpr, depth, noise=.15, many=.1, datap=0, limit=40, leaves=None, heads=xg.HEADS, maxk=3):
    """Files of items; returns (files, plain terms)."""
    total = nfiles * nexpr
    pool = related_terms(r, max(2, total), depth, limit, leaves, heads, maxk)
    files = []
    for f in range(nfiles):
        items, ids = [], []
        for i in range(r.randint(1, nexpr)):
            if r.random() < datap:
                did = r.choice(['d1', 'd2', 'd3', 'long id', '7'])
                items.append({'i': 'data', 'id': did, 'toks': xg.rdata(r)})
                ids.append(did)
            ts = [xg.noisy(r.choice(pool), r, noise) for _ in range(1 if r.random() > many else r.randint(2, 3))]
            items.append({'i': 'expr', 'url': 'f%d/u%d' % (f, i),
                          'id': r.choice(ids + ['d1', '']) if datap else '', 'terms': ts})
        files.append({'items': items})
    used = [t for f in files for it in f['items'] if it['i'] == 'expr' for t in it['terms']]
    return files, pool


def question(r, pool, leaves=None, names=None, noise=.1, limit=60):
    leaves = leaves or vocabulary(r)
    t = r.choice(pool)
    if r.random() < .6:
        t = r.choice(xg.subterms(t))
    if r.random() < .12:
        t = xg.mutated(t, r, leaves)
    q = xg.abstracted(t, r, r.choice([0, .15, .3, .5]), names=names or r.choice([('x', 'y', 'z'), ('x', 'y'), ('x',)]))
    if r.random() < .1:
        q = xg.mutated(q, r, leaves)
    if r.random() < .03:
        q = qvar(r.choice(['', 'x']))
    if xg.size(q) > limit:
        q = qvar('x')
    return xg.noisy(q, r, noise)


NUMS = ['0', '1', '2', '10', '007', '-1', '-2.5', '0.5', '3.14', '1000', '-1000', '99999', '2.0', '0.001', '-0.001', '+4', '12.125', '-0']
NONNUMS = ['abc', '', 'x', 'pi', 'a1', '-', '+', 'two']


def numleaf(r):
    c = r.random()
    if c < .75:
        return tok('cn', r.choice(NUMS))
    if c < .85:
        return tok('cn', r.choice(NONNUMS))
    if c < .93:
        return tok('ci', r.choice(NUMS + ['x']))
    return tok('cn', r.choice(NUMS), [tok('sep')])


def numterm(r, depth):
    if depth == 0 or r.random() < .3:
        return numleaf(r)
    return tok('apply', '', [tok(r.choice(['plus', 'minus']))] + [numterm(r, depth - 1) for _ in range(r.randint(1, 3))])


def rrange(r):
    def b():
        c = r.random()
        return None if c < .2 else r.choice(NONNUMS) if c < .3 else r.choice(NUMS)
    return xg.rangetok(b(), b())


def ranged(t, r, p):
    """Replace random leaves (and some inner nodes) by ranges."""
    if (not t['k'] and not t['t'].startswith('mws:') and r.random() < p) or r.random() < p / 8:
        return rrange(r)
    return dict(t, k=[ranged(c, r, p) for c in t['k']])
