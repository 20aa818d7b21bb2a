"""Operations on index directories: builds (also killed and failing ones), servings, damage."""
import contextlib, os, re, shutil, subprocess
from . import util, search, xmlgen as xg
from .server import Server

ERRNO = {'write': 'ENOSPC', 'pwrite64': 'ENOSPC', 'openat': 'ENOSPC', 'open': 'ENOSPC', 'creat': 'ENOSPC', 'mkdir': 'ENOSPC',
         'mkdirat': 'ENOSPC', 'rename': 'EIO', 'renameat': 'EIO', 'renameat2': 'EIO', 'ftruncate': 'ENOSPC', 'fallocate': 'ENOSPC'}


def strace_works():
    d = util.newdir('st')
    try:
        r = subprocess.run(['strace', '-D', '-f', '-o', os.path.join(d, 'log'), '-e', 'trace=openat', '-e',
                            'inject=openat:error=EIO:when=1+', 'cat', '/dev/null'],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20)
        return r.returncode != 0 and 'INJECTED' in open(os.path.join(d, 'log')).read()
    except (OSError, subprocess.SubprocessError):
        return False


def strace_prefix(log, fault):
    if fault is None:
        return []
    if fault['kind'] == 'count':
        return ['strace', '-D', '-f', '-y', '-o', log]
    what = 'signal=KILL' if fault['kind'] == 'kill' else 'error=' + fault.get('err', ERRNO.get(fault['sys'], 'EIO'))
    return ['strace', '-D', '-f', '-y', '-o', log, '-e', 'inject=%s:%s:when=%d' % (fault['sys'], what, fault['when'])]


def parse_log(path):
    """[(pid, syscall, line)] of a strace log."""
    out = []
    try:
        with open(path, errors='replace') as f:
            for line in f:
                m = re.match(r'(\d+) +(\w+)\(', line)
                if m:
                    out.append((m.group(1), m.group(2), line))
                elif ' resumed>' in line and 'INJECTED' in line:
                    m = re.match(r'(\d+) +<\.\.\. (\w+) resumed', line)
                    if m:
                        out.append((m.group(1), m.group(2), line))
    except OSError:
        pass
    return out


def points(log, idir):
    """{syscall: [n...]}: the calls of the main thread that concern the index directory."""
    calls = parse_log(log)
    if not calls:
        return {}
    main, n, pts = calls[0][0], {}, {}
    for pid, sysc, line in calls:
        if pid != main:
            continue
        n[sysc] = n.get(sysc, 0) + 1
        if idir in line:
            pts.setdefault(sysc, []).append(n[sysc])
    return pts


def applicable(log, idir):
    """Did the injected failure concern the index directory, before the build was complete?"""
    complete, writing = False, False
    for pid, sysc, line in parse_log(log):
        if 'INJECTED' in line:
            return idir in line and not complete
        if 'index.memsector' in line and ' = -1' not in line:
            if sysc in ('openat', 'open', 'creat'):
                complete, writing = complete or (writing and 'O_RDONLY' in line), writing or 'O_RDONLY' not in line
            elif sysc == 'close' and writing:
                complete = True
    return False


def asked(srv, queries):
    out = []
    for q in queries:
        e = search.ask_event(srv, 's', 'n', {'q': q})
        out.append({k: e[k] for k in ('q', 'status', 'total', 'hits', 'bad')})
    return out


def wait_gone(log):
    """The detached tracer writes its last line after the program has ended."""
    import time
    for _ in range(100):
        t = ''
        try:
            with open(log, errors='replace') as f:
                t = f.read()[-2000:]
        except OSError:
            pass
        if '+++ exited' in t or '+++ killed' in t:
            return
        time.sleep(.01)


def run_ops(sc):
    """Execute a list of operations; return the recorded events ([] if a fault did not concern the index)."""
    d = util.newdir('st')
    ev = []
    for g, files in sorted(sc['harvests'].items()):
        h = os.path.join(d, 'h' + g)
        os.mkdir(h)
        search.write_harvests(h, files)
        ev.append(search.index_event(g, {'files': files}))
    idir = os.path.join(d, 'index')
    for k, op in enumerate(sc['ops']):
        o, fault = op['op'], op.get('fault')
        log = os.path.join(d, 'strace%d' % k)
        pre = strace_prefix(log, fault)
        if o == 'index':
            r = subprocess.run(pre + [search.find('mws-index'), '-I', os.path.join(d, 'h' + op['n']), '-o', idir],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, cwd=d)
            if fault:
                wait_gone(log)
            if fault and fault['kind'] == 'fail' and not applicable(log, idir):
                return []
            ev.append({'e': 'Build', 'd': 'D', 'n': op['n'], 'del': False, 'fault': bool(fault) and fault['kind'] != 'count',
                       'rc': r.returncode, 'how': fault or 'plain'})
        elif o in ('serve', 'servef', 'load'):
            a, port = search.mwsd_argv('-D', idir)
            if o != 'load':
                a += ['-I', os.path.join(d, 'h' + op['n'])] + (['-f'] if o == 'servef' else [])
            for _ in range(3):
                srv = Server(pre + a, port, cwd=d)
                if srv.up or 'address already in use' not in srv.log().lower():
                    break
                srv.kill()
                a, port = search.mwsd_argv(*a[3:])
            e = {'e': 'Serve', 'd': 'D', 'given': o != 'load', 'n': op.get('n', 'A'), 'del': o == 'servef',
                 'fault': bool(fault) and fault['kind'] != 'count', 'up': srv.up, 'rc': srv.p.returncode if not srv.up else 0, 'asked': [],
                 'how': fault or 'plain'}
            if not srv.up:
                e['log'] = srv.log()[-300:]
            if srv.up:
                e['asked'] = asked(srv, sc['queries'])
                if fault and fault['kind'] == 'kill' and any(a['status'] == 0 for a in e['asked']):
                    with contextlib.suppress(subprocess.TimeoutExpired):
                        srv.p.wait(10)          # the kill comes while questions are asked
                if not srv.alive() and fault and fault['kind'] == 'kill':
                    e['up'], e['rc'], e['asked'] = False, srv.p.returncode, []
            if srv.alive() and not fault:
                srv.stop()
            srv.kill()
            if fault:
                wait_gone(log)
            if fault and fault['kind'] == 'fail' and not applicable(log, idir):
                return []
            ev.append(e)
        elif o == 'damage':
            p = os.path.join(idir, {'mem': 'index.memsector', 'dict': 'meanings.dat', 'crawl': 'crawl.db', 'formula': 'formula.db'}[op['part']])
            how = op.get('how', 'remove')
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif not os.path.exists(p):
                continue
            elif how == 'remove':
                os.unlink(p)
            else:
                b = bytearray(open(p, 'rb').read())
                if how == 'truncate':
                    b = b[:op['at'] % len(b)]
                elif how == 'append':
                    b += bytes(op['at'] % 9 + 1)
                else:
                    b[op['at'] % len(b)] ^= op['mask']
                with open(p, 'wb') as f:
                    f.write(b)
            ev.append({'e': 'Damage', 'd': 'D', 'what': op})
    if sc.get('keep_log'):
        sc['keep_log'](os.path.join(d, 'strace0'), idir)
    return ev


def harvest(r, tag, n):
    """A harvest whose every address and datum shows which harvest it is."""
    from . import gen
    pool = gen.related_terms(r, n, 3, 14)
    items = []
    for i in range(n):
        if r.random() < .4:
            items.append({'i': 'data', 'id': 'd%d' % (i % 3), 'toks': ['T:data %s %d' % (tag, i)]})
        items.append({'i': 'expr', 'url': '%s%d' % (tag, i), 'id': r.choice(['d0', 'd1', 'd2', '']), 'terms': [r.choice(pool)]})
    return [{'items': items}], pool
