"""P14: terms beyond internal capacities are rejected, never misinterpreted."""
from .. import util, gen, search, trace, xmlgen as xg
from ..xmlgen import tok, qvar

EDGE = {'named': [1, 30, 31, 32, 33, 34, 64, 65, 96, 97, 129, 162, 200],
        'anon': [1, 31, 32, 33, 64, 65, 96, 97, 128, 129, 162],
        'range': [1, 31, 32, 33, 34, 64, 100],
        'arity': [10, 127, 128, 129, 253, 254, 255, 256, 257, 300, 511, 512, 513],
        'depth': [10, 100, 200, 245, 250, 253, 254, 255, 256, 257, 300, 600]}


def nest(n, leaf):
    t = leaf
    for i in range(n):
        t = tok('a' if i % 2 else 'b', '', [t])
    return t


def scenario(seed):
    r = util.rng('P14', seed)
    kind = ['named', 'anon', 'range', 'arity', 'depth', 'symbols', 'mixed'][seed % 7]
    items, qs, modes = [], [], [r.choice(['mem', 'disk'])]

    def leaf(i):
        return tok('cn', str(i)) if r.random() < .5 else tok('ci', 'c%d' % (i % 50))

    def add(t):
        items.append({'i': 'expr', 'url': 'u%d' % len(items), 'id': '', 'terms': [t]})
    if kind in ('named', 'anon', 'range', 'mixed'):
        ns = sorted(set(r.sample(EDGE.get(kind, EDGE['named']), 3)))
        for n in ns:
            kids = [tok('cn', str(i % 7)) if kind == 'range' else leaf(i) for i in range(n)]
            add(tok('list', '', kids))
            add(tok('list', '', [kids[0]] * n))
            k2 = list(kids)
            k2[r.randrange(n)] = tok('ci', 'other')
            add(tok('list', '', k2))

            def var(i, m):
                if m == 'named':
                    return qvar('v%d' % i)
                if m == 'anon':
                    return qvar('')
                if m == 'range':
                    return xg.rangetok('0', '10')
                return var(i, r.choice(['named', 'anon', 'range']))
            q = tok('list', '', [var(i, kind) for i in range(n)])
            qs.append({'q': q})
            if kind == 'named' and n > 2:     # two names that must stand for the same term
                q2 = xg.json.loads(xg.json.dumps(q))
                q2['k'][n - 1]['x'] = 'v0'
                qs.append({'q': q2})
            if n > 2:                         # all but a few are constants
                q3 = tok('list', '', list(kids))
                for i in r.sample(range(n), r.randint(1, min(n, 3))):
                    q3['k'][i] = var(i, kind)
                qs.append({'q': q3})
            if kind == 'range':               # the last ranges exclude: they must be heard
                q4 = xg.json.loads(xg.json.dumps(q))
                q4['k'][n - 1] = xg.rangetok('100', '200')
                qs.append({'q': q4})
    elif kind == 'arity':
        for n in r.sample(EDGE['arity'], 3):
            kids = [leaf(i) for i in range(n)]
            add(tok('set', '', kids))
            add(tok('apply', '', [tok('plus'), tok('set', '', list(kids)), tok('cn', '1')]))
            qs.append({'q': tok('set', '', list(kids))})
            qs.append({'q': tok('set', '', [qvar('x')] + kids[1:])})
            qs.append({'q': tok('apply', '', [tok('plus'), qvar('x'), tok('cn', '1')])})
            for m in (n % 256, n - 256, n + 256, n - 1, n + 1):
                if 0 < m < 600:
                    qs.append({'q': tok('set', '', [leaf(i) for i in range(m)])})
                    if m < 256:
                        add(tok('set', '', [leaf(i) for i in range(m)]))
        qs.append({'q': qvar('')})
    elif kind == 'depth':
        for n in r.sample(EDGE['depth'], 2):
            add(nest(min(n, 200), tok('cn', '1')))
            for m in (n, n - 1):
                qs.append({'q': nest(m, qvar('x'))})
                qs.append({'q': nest(m, tok('cn', '1'))})
        n = r.choice(EDGE['depth'])
        add(nest(n, tok('cn', '2')))
        add(tok('cn', 'after'))
        qs.append({'q': tok('cn', 'after')})
        qs.append({'q': tok('cn', '2')})
        f = {'items': items}
        f['events'] = xg.item_events(items)
        f2 = {'items': [{'i': 'expr', 'url': 'second', 'id': '', 'terms': [tok('cn', '3')]}]}
        qs.append({'q': tok('cn', '3')})
        files = [{'xml': xg.harvest_xml(items), 'events': f['events']}, f2]
        return {'files': files, 'queries': qs, 'modes': modes}
    else:
        n = r.choice([300, 700])
        for i in range(0, n, 20):
            add(tok('list', '', [tok('ci', 's%d' % (i + j)) for j in range(20)]))
        for i in r.sample(range(0, n), 10):
            qs.append({'q': tok('ci', 's%d' % i)})
            qs.append({'q': tok('ci', 'unknown%d' % i)})
        qs.append({'q': tok('list', '', [qvar('x')] * 19 + [tok('ci', 'unknown')])})
        qs.append({'q': tok('unknown')})
        big = tok('list', '', [tok('list', '', [tok('ci', 's%d' % (j % n)) for j in range(50)]) for _ in range(20)])
        add(big)
        qs.append({'q': big})
        qs.append({'q': tok('list', '', [qvar('x')] + big['k'][1:])})
    r.shuffle(qs)
    return {'files': [{'items': items}], 'queries': qs, 'modes': modes}


CFG = '''SPECIFICATION Spec
CONSTANTS Z=%d L=%d Wrong="%s"
INVARIANTS ReadsBack%s
'''


def model(rep):
    """The numbering of tokens, with small zones."""
    for z in (1, 2, 3):
        util.mc(rep, 'CapacityMC', CFG % (z, 6 if util.THOROUGH else 5, 'no', ' JustBeyond'), workers=8)
    for w in ('named', 'anonymous', 'ranges'):
        util.refuted(rep, 'CapacityMC', CFG % (2, 4, w, ''), w)


def run():
    rep = util.Report('P14', 'model_checking')
    search.bins()
    model(rep)
    n = 420 if util.THOROUGH else 56
    S = [trace.Session(scenario(i), search.ask_session, 'P14 scenario %d' % i) for i in range(n)]
    trace.check(rep, 'SearchTrace', S)
    return rep.finish()
