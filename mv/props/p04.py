"""P04: pages tile the full result; totals do not depend on paging."""
from .. import util, gen, search, trace, family, xmlgen as xg


def pages(r, n):
    out = [(0, 0), (n, 5), (n + 7, 3), (0, n), (0, n + 1), (None, None), (None, r.randint(1, 5)), (r.randint(0, n + 1), None)]
    step = r.randint(1, max(1, min(9, n // 2 + 1)))
    out += [(o, step) for o in range(0, min(n, step * 12) + step, step)]
    for _ in range(8):
        o = r.randint(0, n + 3)
        out.append((o, r.choice([0, 1, 2, max(0, n - o), max(0, n - o - 1), n - o + 1 if n >= o else 3, r.randint(0, n + 5), 99999, 100000, 100001, 1 << 30])))
    out += [(99999, 5), (100000, 1), (2147483647, 2147483647), (1, 2147483647)]
    return out


def scenario(seed):
    r = util.rng('P04', seed)
    leaves = r.choice([xg.LEAVES, xg.LEAVES[:3]])
    files, pool = gen.harvest(r, r.choice([1, 2, 4]), r.randint(4, 20), r.randint(1, 2), leaves=leaves, limit=15, datap=.1)
    for i, f in enumerate(files):
        for it in f['items']:
            if it['i'] == 'expr' and r.random() < .2:
                it['terms'] = it['terms'] * r.randint(2, 6)
    qs = []
    for k in range(r.randint(4, 8)):
        q = xg.qvar('') if k == 0 else gen.question(r, pool, leaves)
        n = sum(xg.size(t) for f in files for it in f['items'] if it['i'] == 'expr' for t in it['terms'])
        qs.append({'q': q, 'id': 'q%d' % k, 'pages': pages(r, r.choice([n, n // 2, 10, 5, r.randint(1, 40)]))})
    return {'files': files, 'queries': qs, 'modes': [r.choice(['mem', 'disk'])]}


def run():
    rep = util.Report('P04', 'model_checking')
    search.bins()
    n = 800 if util.THOROUGH else 60
    S = [trace.Session(scenario(i), search.ask_session, 'P04 scenario %d' % i) for i in range(n)]
    family.model(rep)
    S += [trace.Session(family.at_the_cap(i), family.session, 'P04 scenario at the cap %d' % i) for i in range(60 if util.THOROUGH else 9)]
    trace.check(rep, 'SearchTrace', S)
    return rep.finish()
