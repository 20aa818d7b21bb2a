"""P09: exactly the harvests that were asked for are loaded, each once."""
import os, subprocess
from .. import util, gen, search, trace, streams, xmlgen as xg
from ..xmlgen import tok

NAMES = ['a.harvest', 'b.harvest', 'c.harvest', 'harvest', 'xharvest', 'a.harvest.bak', 'a.xml', 'a.Harvest', '.a.harvest',
         '.harvest', 'é.harvest', 'with space.harvest', 'a.harvest.harvest', 'z.harvest.gz', 'noext', 'd.mws', 'e.xml',
         '..harvest', 'x.harvest~']
DIRS = ['sub', 'sub2', '.hidden', 'dir.harvest', 'a b', '..x', 'harvest']
NOBODY = 65534


def scenario(seed):
    r = util.rng('P09', seed)
    tree, tops = [], []
    k = [0]

    def stream():
        k[0] += 1
        c = r.random()
        if c < .1:
            return {'items': None, 'events': [], 'xml': r.choice(['', '  ', 'not xml', '<?xml version="1.0"?>'])}
        items = [{'i': 'expr', 'url': 'u%d.%d' % (k[0], j), 'id': '', 'terms': [tok('ci', 'x%d' % k[0])]}
                 for j in range(r.randint(1, 2))]
        ev = streams.term_events(tok('mws:harvest'))[:-1]
        for it in items:
            ev += [streams.S('mws:expr', url=it['url'])] + streams.term_events(it['terms'][0]) + [streams.E]
        ev.append(streams.E)
        if c < .25:
            ev = ev[:r.randrange(len(ev))] + [streams.X]
        return {'events': ev, 'xml': streams.render(ev, r, noise=0).decode('latin-1')}

    def fill(d, depth):
        for nm in r.sample(NAMES, r.randint(1, 6)):
            c = r.random()
            kind = 'file' if c < .9 else r.choice(['link', 'other', 'dangling'])
            e = {'dir': d, 'name': nm, 'kind': 'file' if kind == 'file' else 'link', 'make': kind,
                 'ok': r.random() > .06, 'stream': stream()}
            tree.append(e)
        if depth:
            used = {e['name'] for e in tree if e['dir'] == d}
            for nm in r.sample(DIRS, r.choice([0, 1, 2, 2])):
                if nm in used:
                    continue
                ok = r.random() > .06
                tree.append({'dir': d, 'name': nm, 'kind': 'dir', 'make': 'dir', 'ok': ok, 'stream': {'events': [], 'xml': ''}})
                fill(d + [nm], depth - 1)
    tops_all = []
    for t in range(r.choice([1, 1, 1, 2, 3])):
        fill(['t%d' % t], r.choice([0, 1, 2, 3]))
        tops_all.append(['t%d' % t])
    tops = list(tops_all)
    if r.random() < .2:
        tops.append(r.choice(tops_all))           # the same path twice
    if r.random() < .2:
        tops.insert(r.randrange(len(tops) + 1), ['missing'])
    sub = [e for e in tree if e['kind'] == 'dir' and e['ok']]
    if sub and r.random() < .2:
        e = r.choice(sub)
        tops.append(e['dir'] + [e['name']])
    rel = r.random() < .35
    ext = r.choice(['harvest', 'harvest', '.harvest', 'xml', '.mws', 'bak', ''])
    default_ext = r.random() < .4
    if rel and r.random() < .6:                   # an ending about as long as a whole path
        e = r.choice([e for e in tree if e['kind'] == 'file'] or tree)
        path = '/'.join(e['dir'][:1] + ['.'] + e['dir'][1:] + [e['name']])
        ext = ('x' * 99 + r.choice(['', e['name']]))[-(len(path) + r.choice([-1, 0, 1, 1, 1, 2, 30])):]
        default_ext = ext == ''
    return {'tree': tree, 'tops': tops, 'ext': ext, 'rel': rel, 'default_ext': default_ext, 'rec': r.random() < .6, 'slash': r.random() < .3,
            'mode': r.choice(['mem', 'disk'])}


CFG = '''SPECIFICATION Spec
CONSTANTS NoBound=NoBound Wrong="%s" Emit=%s Many=%s
INVARIANTS JustThose EmitAll
'''


def model(rep):
    """The walk through every small tree; the trees."""
    res = util.mc(rep, 'LoaderMC', CFG % ('no', 'TRUE', 'TRUE' if util.THOROUGH else 'FALSE'), workers=8, timeout=800)
    for w in ('hidden directories', 'links', 'ending anywhere', 'unreadable file ends it', 'unreadable directory ends it'):
        util.refuted(rep, 'LoaderMC', CFG % (w, 'FALSE', 'TRUE' if w == 'unreadable directory ends it' else 'FALSE'), w)
    return sorted(util.generated(res.out), key=util.json.dumps)


def enumerated(g, i):
    """A tree of the model."""
    tree = []
    for k, e in enumerate(g['tree']):
        ev = streams.term_events(tok('mws:harvest'))[:-1] + [streams.S('mws:expr', url='u%d' % k)]
        ev += streams.term_events(tok('ci', 'x%d' % k)) + [streams.E, streams.E]
        isf = e['kind'] == 'file'
        tree.append(dict(e, make=e['kind'], stream={'events': ev if isf else [], 'xml': streams.render(ev, util.rng('P09 tree'), noise=0).decode('latin-1')}))
    if not tree:
        return None
    return {'tree': sorted(tree, key=lambda e: len(e['dir'])), 'tops': g['tops'], 'ext': '.x', 'rel': False, 'default_ext': False, 'rec': g['rec'],
            'slash': False, 'mode': 'disk' if i % 4 == 0 else 'mem'}


def can_setuid():
    try:
        return subprocess.run(['true'], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except (OSError, PermissionError, subprocess.SubprocessError):
        return False


def session(sc):
    d = util.newdir('s')
    os.chmod(d, 0o755)
    drop = can_setuid()
    ext = 'harvest' if sc['default_ext'] else sc['ext']
    tree = []
    later = []
    for e in sc['tree']:
        p = os.path.join(d, *e['dir'], e['name'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if e['make'] == 'file':
            with open(p, 'wb') as f:
                f.write(e['stream']['xml'].encode('latin-1'))
        elif e['make'] == 'dir':
            os.makedirs(p, exist_ok=True)
        elif e['make'] == 'link':
            with open(os.path.join(d, 'linked'), 'w') as f:
                f.write('<mws:harvest><mws:expr url="linked"><ci>linked</ci></mws:expr></mws:harvest>')
            os.symlink(os.path.join(d, 'linked'), p)
        elif e['make'] == 'dangling':
            os.symlink('/nonexistent/file', p)
        else:
            os.mkfifo(p)
        ok = e['ok'] or not drop
        if not ok and e['make'] in ('file', 'dir'):
            later.append(p)
        tree.append({'dir': e['dir'], 'name': e['name'], 'kind': e['kind'], 'ok': ok, 'stream': {'events': e['stream']['events']}})
    for p in sorted(later, reverse=True):
        os.chmod(p, 0)
    as_user = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if drop else {}
    idir = os.path.join(d, 'index')
    os.mkdir(idir)
    os.chmod(idir, 0o777)
    args = []
    for t in sc['tops']:
        args += ['-I', os.path.join(*([] if sc['rel'] else [d]), *t) + ('/' if sc['slash'] else '')]
    if sc['rec']:
        args.append('-r')
    if not sc['default_ext']:
        args += ['-e', sc['ext']]
    ev = [{'e': 'Tree', 'n': 'A', 'tree': tree, 'tops': sc['tops'], 'ext': ext, 'rec': sc['rec'], 'ren': False, 'data': True}]
    if sc['mode'] == 'disk':
        r = subprocess.run([search.find('mws-index'), '-o', idir] + args, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=60, cwd=d if sc['rel'] else '/', **as_user)
        ev.append({'e': 'Built', 'n': 'A', 'rc': r.returncode})
        if r.returncode:
            return ev
        srv = search.start_mwsd('-D', idir, popen=as_user)
    else:
        srv = search.start_mwsd(*args, popen=dict(as_user, **({'cwd': d} if sc['rel'] else {})))
    ev.append(search.fact('server starts', srv.up, True))
    if srv.up:
        ev.append(search.ask_event(srv, 's', 'A', {'q': xg.qvar('')}))
    srv.kill()
    return ev


def run():
    rep = util.Report('P09', 'model_checking')
    search.bins()
    n = 900 if util.THOROUGH else 300
    S = [trace.Session(scenario(i), session, 'P09 scenario %d' % i) for i in range(n)]
    G = model(rep)
    rep.add('trees_generated', len(G))
    r = util.rng('P09 trees')
    T = [enumerated(g, i) for i, g in enumerate(r.sample(G, 3000 if util.THOROUGH else 400))]
    S += [trace.Session(t, session, 'P09 tree %d' % i) for i, t in enumerate(T) if t]
    trace.check(rep, 'SearchTrace', S)
    if not can_setuid():
        rep.assumptions.append('unreadable files were not exercised: this process may not change its user')
    return rep.finish()
