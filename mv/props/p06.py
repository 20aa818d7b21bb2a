"""P06: an interrupted, truncated or damaged index is never served as a good one."""
import os
from .. import util, gen, search, store, trace, xmlgen as xg

MC = '''SPECIFICATION Spec
CONSTANTS Fresh="fresh" Debris="debris" Gens={"A","B"} Order<-%s RemoveFirst=%s HeaderLast=%s Depth=%d Emit=%s
INVARIANTS ServedIsComplete Abstraction EmitHist
PROPERTIES Kept
'''


def mc(rep):
    util.mc(rep, 'StoreMC', MC % ('CommitLast', 'TRUE', 'TRUE', 6 if util.THOROUGH else 4, 'FALSE'), timeout=800)
    # the model can tell: each protection, taken away, lets an incomplete index be served
    for a in [('MemBeforeDict', 'TRUE', 'TRUE'), ('CommitLast', 'FALSE', 'TRUE'), ('CommitLast', 'TRUE', 'FALSE')]:
        util.refuted(rep, 'StoreMC', MC % (a + (5, 'FALSE')), a)


def queries(pool):
    return [xg.qvar(''), pool[0], xg.tok('apply', '', [xg.qvar('f'), xg.qvar('x'), xg.qvar('y')])]


def base(seed, na, nb):
    r = util.rng('P06', seed)
    ha, pool = store.harvest(r, 'A', na)
    hb, _ = store.harvest(r, 'B', nb)
    return {'harvests': {'A': ha, 'B': hb}, 'queries': queries(pool)}


PREPARE = {          # operations before the one that is interrupted, which comes last
    'build': [{'op': 'index', 'n': 'A'}],
    'build by mwsd': [{'op': 'serve', 'n': 'A'}],
    'rebuild': [{'op': 'index', 'n': 'B'}, {'op': 'damage', 'part': 'dict'}, {'op': 'servef', 'n': 'A'}],
    'rebuild after a crash': [{'op': 'index', 'n': 'B'}, {'op': 'damage', 'part': 'crawl'}, {'op': 'servef', 'n': 'A'}],
}
AFTER = [{'op': 'load'}, {'op': 'servef', 'n': 'B'}, {'op': 'load'}]


# or: another build that may only use what is left if that cannot do harm
AGAIN = [{'op': 'load'}, {'op': 'index', 'n': 'A'}, {'op': 'load'}, {'op': 'servef', 'n': 'B'}, {'op': 'load'}]


def interrupted(b, how, fault):
    ops = [dict(o) for o in PREPARE[how]]
    ops[-1]['fault'] = fault
    again = fault.get('sys', '').startswith(('unlink', 'rename', 'rmdir')) or fault.get('when', 0) % 4 == 0
    return dict(b, ops=ops + (AGAIN if again else AFTER))


def sweep(b, how, label, r, limit):
    """All interruptions (up to a limit, then a sample) of one operation."""
    got = {}
    sc = interrupted(b, how, {'kind': 'count'})
    k = len(PREPARE[how]) - 1

    def keep(log, idir):
        got['pts'] = store.points(log.replace('strace0', 'strace%d' % k), idir)
    store.run_ops(dict(sc, ops=sc['ops'][:k + 1], keep_log=keep))
    pts = got['pts']
    faults = [{'kind': kind, 'sys': s, 'when': n} for s, ns in sorted(pts.items()) for n in ns for kind in ('kill', 'fail')
              if not (kind == 'fail' and s in ('fcntl', 'fstat', 'newfstatat', 'getdents64', 'munmap', 'mmap', 'close', 'access'))]
    r.shuffle(faults)
    faults.sort(key=lambda f: not f['sys'].startswith(('unlink', 'rename')))     # those first
    return len(faults), [trace.Session(interrupted(b, how, f), store.run_ops, 'P06 %s: %s, %s %s no. %d' % (
        label, how, f['kind'], f['sys'], f['when'])) for f in faults[:limit]]


def run():
    rep = util.Report('P06', 'model_checking')
    search.bins()
    mc(rep)
    S = []
    r = util.rng('P06 sweep')
    if store.strace_works():
        small, large = base('s', 3, 2), base('l', 60, 10)
        big = 4000 if util.THOROUGH else 90
        for label, b, how, limit in [('small', small, 'build', 10 ** 6), ('small', small, 'rebuild', big),
                                     ('small', small, 'rebuild after a crash', big), ('small', small, 'build by mwsd', big),
                                     ('large', large, 'build', big), ('large', large, 'rebuild', big)]:
            n, ss = sweep(b, how, label, r, limit)
            rep.add('interruption_points', n)
            rep.add('interruptions_executed', len(ss))
            S += ss
    else:
        rep.assumptions.append('strace is not usable here: no build was interrupted')
    # damage to the memory sector
    dmg = []
    for label, b in [('tiny', base('t', 1, 1)), ('small', base('s2', 4, 2)), ('large', base('l2', 150, 3)), ('huge', huge(6000 if util.THOROUGH else 1500))]:
        size = measured(b)
        rep.add('bytes_of_%s_memory_sector' % label, size)
        at = list(range(size)) if size < (4000 if util.THOROUGH else 700) else sorted(r.sample(range(size), 100) + [0, size - 1])
        ops = [dict(op='damage', part='mem', how='truncate', at=n) for n in at]
        ops += [dict(op='damage', part='mem', how='flip', at=n, mask=m) for n in at for m in
                ([1, 128, 255] if label == 'tiny' else [r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])])]
        ops += [dict(op='damage', part='mem', how='append', at=n) for n in range(9)]
        dmg += [(label, b, ops[i:i + 60]) for i in range(0, len(ops), 60)]
    S += [trace.Session(dict(b, damages=ops), damaged, 'P06 damage to a %s memory sector' % label) for label, b, ops in dmg]
    rep.add('damages_executed', sum(len(o) for _, _, o in dmg))
    trace.check(rep, 'StoreTrace', S, cfg='StoreTrace.cfg')
    rep.sample({'interruption': 'kill at the n-th write/openat/rename/... of mws-index or mwsd -f -I, then load, then rebuild, then load'})
    return rep.finish()


def huge(n):
    """A memory sector of hundreds of kilobytes, made of few kinds of expressions."""
    r = util.rng('P06 huge')
    ts = [xg.tok('apply', '', [xg.tok('plus')] + [xg.tok('ci', 'abcdefgh'[r.randrange(8)]) for _ in range(r.randint(6, 30))]) for _ in range(n)]
    files = [{'items': [{'i': 'expr', 'url': 'A%d' % i, 'id': '', 'terms': [t]} for i, t in enumerate(ts)]}]
    return {'harvests': {'A': files, 'B': files[:1]}, 'queries': [ts[0], ts[-1]]}


def measured(b):
    d = util.newdir('m')
    os.mkdir(os.path.join(d, 'h'))
    search.write_harvests(os.path.join(d, 'h'), b['harvests']['A'])
    search.mws_index(os.path.join(d, 'h'), os.path.join(d, 'i'))
    return os.path.getsize(os.path.join(d, 'i', 'index.memsector'))


def damaged(sc):
    """One index, many damages: each time damage, load, restore."""
    d = util.newdir('dm')
    h, idir = os.path.join(d, 'h'), os.path.join(d, 'i')
    os.mkdir(h)
    search.write_harvests(h, sc['harvests']['A'])
    ev = [search.index_event('A', {'files': sc['harvests']['A']})]
    rc, _ = search.mws_index(h, idir)
    ev.append({'e': 'Build', 'd': 'G', 'n': 'A', 'del': False, 'fault': False, 'rc': rc, 'how': 'plain'})
    mem = os.path.join(idir, 'index.memsector')
    good = open(mem, 'rb').read()

    def load(name):
        srv = search.start_mwsd('-D', idir)
        e = {'e': 'Serve', 'd': name, 'given': False, 'n': 'A', 'del': False, 'fault': False, 'up': srv.up,
             'rc': srv.p.returncode if not srv.up else 0, 'asked': store.asked(srv, sc['queries']) if srv.up else [], 'how': 'plain'}
        srv.kill()
        return e
    for op in sc['damages']:
        b = bytearray(good)
        if op['how'] == 'truncate':
            b = b[:op['at'] % len(good)]
        elif op['how'] == 'append':
            b += bytes(op['at'] + 1)
        else:
            b[op['at'] % len(good)] ^= op['mask']
        with open(mem, 'wb') as f:
            f.write(b)
        ev += [{'e': 'Copy', 'd': 'D', 'of': 'G'}, {'e': 'Damage', 'd': 'D', 'what': op}, load('D')]
    with open(mem, 'wb') as f:
        f.write(good)
    ev.append(load('G'))
    return ev
