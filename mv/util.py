"""Common plumbing of the checks: scratch space, building /repo, TLC, evidence."""
import contextlib, fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MV_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')            # git-ignored: builds, replays, scratch
BUILD = os.path.join(OUT, 'build') if REPO == '/repo' else os.path.join(REPO, '_vb')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
THOROUGH = TIER == 'thorough'
T0 = time.time()
sys.setrecursionlimit(20000)


class CheckError(Exception):
    """The check itself could not be carried out (not a verdict on the code)."""


def rng(*key):
    return random.Random('%d/%s' % (SEED, '/'.join(map(str, key))))


_scratch = None


def scratch():
    """A private scratch directory, removed when the process ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='mv-')
        os.chmod(_scratch, 0o755)
        import atexit
        pid = os.getpid()

        def clean():
            if os.getpid() == pid and not os.environ.get('MV_KEEP'):
                for root, dirs, files in os.walk(_scratch):
                    for d in dirs:
                        with contextlib.suppress(OSError):
                            os.chmod(os.path.join(root, d), 0o700)
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def newdir(name='d'):
    return tempfile.mkdtemp(prefix=name + '-', dir=scratch())


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


# --------------------------------------------------------------------------
# building the code under test

BUILD_ENV = dict(os.environ, CC='gcc', CXX='g++')


def build(targets, variant='plain'):
    """Build the given targets of /repo's working tree out of tree; returns the bin dir."""
    flags = {'plain': '-include cstdint',
             'asan': '-include cstdint -fsanitize=address,undefined -fno-sanitize-recover=undefined'}[variant]
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cmd = ['cmake', '-S', REPO, '-B', bdir, '-G', 'Ninja', '-Wno-dev',
               '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_CXX_FLAGS=' + flags]
        if variant != 'plain':
            cmd.append('-DCMAKE_C_FLAGS=' + flags.replace('-include cstdint', ''))
        r = subprocess.run(cmd, env=BUILD_ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError('cmake failed:\n' + r.stdout[-3000:])
        r = subprocess.run(['ninja', '-C', bdir] + list(targets), env=BUILD_ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError('build failed:\n' + r.stdout[-4000:])
    return bdir


def build_native(name, src, args):
    """Compile a helper from /verif/native."""
    os.makedirs(os.path.join(OUT, 'native'), exist_ok=True)
    out = os.path.join(OUT, 'native', name)
    src = os.path.join(VERIF, 'native', src)
    with open(out + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            r = subprocess.run(['gcc', '-O1', '-g', src, '-o', out] + args, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError('native build failed:\n' + r.stdout)
    return out


# --------------------------------------------------------------------------
# TLC

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcResult:
    pass


def tlc(module, cfg, env=None, workers=1, timeout=600, extra=(), heap='3g', deadlock=False):
    """Run TLC on spec/<module>.tla with spec/<cfg> (or cfg text containing newlines)."""
    meta = newdir('tlc')
    if '\n' in cfg:
        cfgpath = os.path.join(meta, module + '.cfg')
        with open(cfgpath, 'w') as f:
            f.write(cfg)
    else:
        cfgpath = os.path.join(SPEC, cfg)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC',
           '-Djava.io.tmpdir=' + meta, '-cp', JAR, 'tlc2.TLC', '-config', cfgpath,
           '-workers', str(workers), '-metadir', os.path.join(meta, 'states'), '-noGenerateSpecTE',
           '-fp', '1', '-seed', str(SEED)]
    if not deadlock:
        cmd.append('-deadlock')
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, cwd=meta, errors='replace')
    except subprocess.TimeoutExpired as x:
        raise CheckError('TLC timed out on %s: %s' % (module, (x.stdout or b'')[-2000:]))
    res = TlcResult()
    res.rc, res.out, res.cmd = r.returncode, r.stdout, ' '.join(cmd)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.stdout)
    res.generated, res.distinct = ([int(x.replace(',', '')) for x in m[-1]] if m else [0, 0])
    m = re.search(r'The depth of the complete state graph search is ([\d,]+)', r.stdout)
    res.depth = int(m.group(1).replace(',', '')) if m else 0
    res.violated = re.findall(r'Error: Invariant (\w+) is violated|Error: Action property (\w+)|'
                              r'Error: Temporal properties were violated', r.stdout)
    res.ok = r.returncode == 0
    shutil.rmtree(meta, ignore_errors=True)
    return res


def mc(rep, module, cfg, unused=(), **kw):
    """Model-check; everything must hold and every action must be taken (unused=None: nothing is expected to move)."""
    kw.setdefault('workers', 4)
    res = tlc(module, cfg, extra=['-coverage', '60'], **kw)
    if not res.ok:
        raise CheckError('%s failed:\n%s' % (module, res.out[-3000:]))
    cov = action_coverage(res.out)
    idle = [a for a, (_, n) in cov.items() if n == 0 and a not in (unused or ())]
    if unused is not None and (not cov or idle):
        raise CheckError('%s: vacuous, actions never taken: %s' % (module, idle))
    rep.add('mc_states', res.distinct)
    rep.add('mc_transitions', res.generated)
    rep.add('mc_actions', len(cov))
    return res


def refuted(rep, module, cfg, what, **kw):
    """A deliberately wrong variant: TLC must find the violation."""
    kw.setdefault('workers', 4)
    res = tlc(module, cfg, **kw)
    if res.ok or not re.search(r'Error: (Invariant \w+ is violated|Action property|Temporal properties were violated|The following behavior|.* is violated)', res.out):
        raise CheckError('%s does not refute %s:\n%s' % (module, what, res.out[-2000:]))
    rep.add('mc_variants_refuted')


def generated(out):
    """What a model printed with PrintT("GEN " \\o ToJson(..))."""
    return [json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')) for m in re.finditer(r'^"GEN (.*)"$', out, re.M)]


def action_coverage(out):
    """{action: (distinct, taken)} from a -coverage run."""
    cov = {}
    for m in re.finditer(r'<(\w+) line [^>]*>: ([\d,]+):([\d,]+)', out):
        cov[m.group(1)] = (int(m.group(2).replace(',', '')), int(m.group(3).replace(',', '')))
    return cov


# --------------------------------------------------------------------------
# evidence and verdicts


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.cov = {}
        self.assumptions = []
        self.violations = 0
        self.samples = []
        self.known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def known_finding(self, key):
        """True (and announced) if a failure with this key is a listed finding."""
        for k in self.known:
            if k['key'] == key:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']), flush=True)
                return True
        return False

    def violation(self, what, replay):
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        h = hashlib.sha1(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(OUT, 'replay', '%s-%s.json' % (self.prop, h))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, what=what, replay=replay), f, indent=1, default=str)
        print('%s: %s' % (self.prop, what), flush=True)
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        self.violations += 1

    def finish(self):
        cov = dict(self.cov)
        cov['samples'] = self.samples or ['(none)']
        ev = dict(property=self.prop, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - T0, 2),
                  violations=self.violations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(p + '.tmp', p)
        log('%s: %d violation(s); %s' % (self.prop, self.violations,
            ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, (int, float)))))
        return 1 if self.violations else 0


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return []
