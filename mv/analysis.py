"""Analyses of saved indexes: the example program, and native/analyze_dump.cpp built like it."""
import fcntl, json, os, re, shlex, subprocess
from . import util, search, family

_dump = None


def dump():
    """The dumping analysis, compiled and linked with the commands the build has for the example."""
    global _dump
    if _dump is None:
        b = search.bins()
        out = subprocess.run(['ninja', '-C', b, '-t', 'commands', 'analyze_example'], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
        comp = next(c for c in out if ' -c ' in c and c.rstrip().endswith('analytics/example.cpp'))
        link = next(c for c in out if re.search(r' -o analytics/analyze_example\b', c))
        obj = re.search(r' -o (\S+)', comp).group(1)
        mine, exe = os.path.join(b, 'analyze_dump.o'), os.path.join(b, 'analyze_dump')
        src = os.path.join(util.VERIF, 'native', 'analyze_dump.cpp')
        with open(os.path.join(b, 'analyze_dump.lock'), 'w') as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            comp = re.sub(r'-M[DTF]\s+\S*|-MD', '', re.sub(r'-M[TF] \S+', '', comp))
            comp = comp.replace(' -o ' + obj, ' -o ' + shlex.quote(mine))
            comp = re.sub(r'\S+analytics/example\.cpp', lambda m: shlex.quote(src), comp)
            link = link.replace(obj, shlex.quote(mine)).replace(' -o analytics/analyze_example', ' -o ' + shlex.quote(exe))
            for c in (comp, link):
                r = subprocess.run(c, shell=True, cwd=b, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise util.CheckError('analysis program: %s\n%s' % (c, r.stdout[-3000:]))
        _dump = exe
    return _dump


def run(argv, env=None):
    try:
        p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), timeout=120)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return -99, ''


def dumped(n, idir, stop=-1):
    out = os.path.join(util.newdir('a'), 'out')
    env = {'DUMP_OUT': out}
    if stop >= 0:
        env['DUMP_STOP'] = str(stop)
    rc, _ = run([dump(), '-I', idir], env)
    e = {'e': 'Analysis', 'n': n, 'rc': rc, 'stop': stop, 'roots': -1, 'rows': [], 'ended': 0}
    if os.path.exists(out):
        with open(out, encoding='utf-8', errors='surrogateescape') as f:
            for line in f:
                try:
                    j = json.loads(line)
                except ValueError:
                    e['rc'] = -98             # broken off
                    continue
                if 't' in j:
                    e['rows'].append(j)
                elif 'roots' in j:
                    e['roots'] = j['roots']
                else:
                    e['ended'] += j['ended']
    return e


def number(s):
    m = re.fullmatch(r'(\d+)\.(\d{6})', s)
    return [int(m.group(1)), int(m.group(2))] if m else [-1, 0]


def statistics(n, idir):
    rc, out = run([search.find('analyze_example'), '-I', idir])

    def field(pattern):
        m = re.findall(pattern, out)
        return m[0] if len(m) == 1 else '-1'
    return {'e': 'Statistics', 'n': n, 'rc': rc, 'roots': int(field(r'Root has (\d+) children')),
            'hits': int(field(r'Index contains (\d+) hits')), 'unique': int(field(r'Index contains (\d+) unique')),
            'depth': number(field(r'Average expression depth is (\S+)')), 'size': number(field(r'Average expression size is (\S+)'))}


def session(sc):
    d = util.newdir('s')
    hdir, idir = os.path.join(d, 'h'), os.path.join(d, 'i')
    os.mkdir(hdir)
    f = sc.get('family')
    if f:
        family.write(os.path.join(hdir, 'a.harvest'), f)
        ev = []
    else:
        search.write_harvests(hdir, sc['files'])
        ev = [search.index_event('A', sc)]
    rc, _ = search.mws_index(hdir, idir, *(['-c'] if sc.get('ren') else []))
    ev.append(search.fact('exit code of mws-index', rc, 0) if f else {'e': 'Built', 'n': 'A', 'rc': rc})
    if rc:
        return ev
    before = sorted((f, os.stat(os.path.join(idir, f)).st_size) for f in os.listdir(idir) if os.path.isfile(os.path.join(idir, f)))
    for stop in sc['stops']:
        ev.append(dumped('A', idir, stop))
    ev.append(statistics('A', idir))
    if f:
        for e in ev:
            if e['e'] in ('Analysis', 'Statistics'):
                e.update(e=e['e'] + 'Family', family=f, ren=bool(sc.get('ren')))
    after = sorted((f, os.stat(os.path.join(idir, f)).st_size) for f in os.listdir(idir) if os.path.isfile(os.path.join(idir, f)))
    ev.append(search.fact('files of the index after the analyses', [list(x) for x in after], [list(x) for x in before]))
    return ev
