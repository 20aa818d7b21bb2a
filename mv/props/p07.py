"""P07: an existing index is never touched unless deletion was asked for."""
import json, re
from .. import util, store, search, trace, xmlgen as xg
from .p06 import MC, mc

OPS = {'index': 'index', 'serve': 'serve', 'servef': 'servef', 'load': 'load', 'damage': 'damage'}


def histories(depth, n):
    """Distinct operation histories of the model: all (n = None) or n simulated ones."""
    cfg = MC % ('CommitLast', 'TRUE', 'TRUE', depth, 'TRUE')
    if n is None:
        r = util.tlc('StoreMC', cfg, workers=4)
    else:
        r = util.tlc('StoreMC', cfg, workers=1, extra=['-simulate', 'num=%d' % n, '-depth', str(depth * 7 + 2)])
    out = set()
    for m in re.finditer(r'^"GEN (.*)"$', r.out, re.M):
        out.add(m.group(1).replace('\\"', '"'))
    if not out:
        raise util.CheckError('no histories from StoreMC:\n' + r.out[-2000:])
    return r, [json.loads(h) for h in sorted(out)]


def ops_of(hist, r, faults):
    ops = []
    for by, g, how in hist:
        o = {'op': by}
        if by == 'damage':
            o['part'] = g
            if g == 'mem':
                o.update(how=r.choice(['remove', 'truncate', 'flip']), at=r.randrange(10000), mask=r.choice([1, 16, 255]))
        elif by != 'load':
            o['n'] = g
        if how == 'stopped':
            o['fault'] = r.choice(faults)
        ops.append(o)
    return ops + [{'op': 'load'}]


def run():
    rep = util.Report('P07', 'model_checking')
    search.bins()
    mc(rep)
    r = util.rng('P07')
    S = []
    faults = [{'kind': 'kill', 'sys': s, 'when': n} for s in ('write', 'openat', 'close', 'fdatasync', 'rename') for n in range(1, 40)]
    usable = store.strace_works()
    if not usable:
        rep.assumptions.append('strace is not usable here: no build was interrupted')
    for depth, n in ([(3, None), (5, 4000), (8, 4000)] if util.THOROUGH else [(2, None), (4, 1500), (6, 1500)]):
        res, hs = histories(depth, n)
        if not usable:
            hs = [h for h in hs if all(o[2] == 'ok' for o in h)]
        rep.add('histories_generated', len(hs))
        r.shuffle(hs)
        for i, h in enumerate(hs[:2500 if util.THOROUGH else 220]):
            q = util.rng('P07', depth, i)
            k = q.choice([1, 2, 5, 12])
            ha, pool = store.harvest(q, 'A', k)
            hb, _ = store.harvest(q, 'B', q.choice([1, 3, 8]))
            if q.random() < .07:
                hb = [{'items': []}]                      # nothing to index: the build fails
            sc = {'harvests': {'A': ha, 'B': hb}, 'queries': [xg.qvar(''), pool[0]], 'ops': ops_of(h, q, faults)}
            S.append(trace.Session(sc, store.run_ops, 'P07 history %s' % ' '.join('-'.join(x for x in o if x) for o in h)))
    trace.check(rep, 'StoreTrace', S, cfg='StoreTrace.cfg')
    return rep.finish()
