"""P22: exported documents list exactly the index ids of the formulae they contain."""
from .. import util, gen, search, trace, docs, exports, streams, xmlgen as xg
from . import p21


def entry(r, d, name, pool, i, n):
    ev = exports.stream(r, i, pool, n) if r.random() < .85 else streams.random_stream(r, i, pool, n)
    return {'dir': d, 'name': name, 'kind': 'file', 'stream': {'events': ev, 'xml': streams.render(ev, r).decode('latin-1')}}


def conversion(r):
    ds = [p21.document(r, r.choice(['xhtml', 'prefix', 'html']), '%d.html' % j, 2, False) for j in range(r.randint(1, 3))]
    o = p21.options(r)
    o['n'] = False
    if o['hasconf']:
        o['conf']['data'] = True
    return {'opts': o, 'docs': ds}


def scenario(seed):
    r = util.rng('P22', seed)
    pool = gen.related_terms(r, 10, 2, 12)
    tree = []
    for i in range(r.choice([1, 2, 3])):
        d = r.choice([[], [], [], ['sub'], ['sub', 'x'], ['.hid']])
        for k in range(len(d)):
            e = {'dir': d[:k], 'name': d[k], 'kind': 'dir', 'stream': {'events': [], 'xml': ''}}
            if e not in tree:
                tree.append(e)
        tree.append(entry(r, d, r.choice(['a%d.harvest', 'é%d.harvest', 'b %d.harvest', 'c%d.harvest.harvest', 'd%d.mws', 'e%d.harvest.bak']) % i,
                          pool, i, r.choice([3, 8, 14])))
    sc = {'tree': tree, 'ren': r.random() < .25, 'steps': []}
    if r.random() < .2:
        sc['convert'] = [conversion(r) for _ in range(r.randint(1, 2))]
    subs = [s for t in pool for s in xg.subterms(t)]
    sc['asked'] = [r.choice(subs) for _ in range(12)]
    for _ in range(r.choice([1, 1, 2, 3])):
        ext = r.choice(['harvest', 'harvest', 'harvest', 'mws'])
        sc['steps'].append({'op': 'export', 'rec': r.random() < .6, 'ext': ext, 'sayext': r.random() < .3})
        for _ in range(r.choice([0, 1, 2])):
            sc['steps'].append(r.choice([{'op': 'remove', 'i': r.randrange(9)}, {'op': 'own', 'i': r.randrange(9), 'x': r.choice(['', 'mine\n'])},
                                         {'op': 'add', 'entry': entry(r, [], 'new%d.harvest' % r.randrange(100), pool, 9, 6)}]))
    if r.random() < .3:
        sc['steps'].insert(0, {'op': 'own', 'i': r.randrange(9), 'x': 'mine'})
    return sc


def crowded(seed):
    """A document with many expressions that share formulae."""
    r = util.rng('P22 crowded', seed)
    S, T, E = exports.S, exports.T, exports.E
    pool = gen.related_terms(r, 3, 1, 4)
    ev = [S('mws:harvest')]
    n = r.choice([64, 65, 70, 130, 257, 300])
    for d in range(2):
        ev += [S('mws:data', mws__data_id=str(d)), S('id'), T('doc%d' % d), E, E]
    for i in range(n):
        ev.append(S('mws:expr', url='%d' % (i + 1), mws__data_id='0' if r.random() < .95 else '1'))
        ev += streams.term_events(pool[0] if r.random() < .9 else r.choice(pool)) + [E]
    ev.append(E)
    tree = [{'dir': [], 'name': 'a.harvest', 'kind': 'file', 'stream': {'events': ev, 'xml': streams.render(ev, r).decode('latin-1')}}]
    return {'tree': tree, 'ren': r.random() < .3, 'asked': [s for t in pool for s in xg.subterms(t)][:12],
            'steps': [{'op': 'export', 'rec': False, 'ext': 'harvest', 'sayext': False}]}


CFG = '''SPECIFICATION Spec
CONSTANTS NoBound=NoBound N=%d Mode="%s" Emit=%s
INVARIANTS DocumentsAsMeant EmitStreams
'''


def model(rep):
    """Reading a harvest against the documents that are meant; every small harvest is printed."""
    out = util.generated(util.mc(rep, 'ExportMC', CFG % (5 if util.THOROUGH else 4, 'map', 'TRUE'), workers=8).out)
    for m in ('current', 'first'):
        util.refuted(rep, 'ExportMC', CFG % (3, m, 'FALSE'), m)
    return out


def stream(seq):
    """The harvest a sequence of the model stands for."""
    S, T, E, X = exports.S, exports.T, exports.E, exports.X
    ev = [S('mws:harvest')]
    for n, x in enumerate(seq, 1):
        a = {} if x[1] == '0' else {'mws__data_id': '1' if x[1] == 'x' else x[1]}
        if x[0] == 'D':
            ev += [S('mws:data', **a), S('id'), T('doc%d' % n), E, E]
        else:
            ev += [S('mws:expr', url='u%d' % n, **a), S('apply'), S('ci'), T('f'), E, S('ci'), T(x[0].lower()), E, E, E]
        if x[1] == 'x':
            return ev[:-1] + [X]
    return ev + [E]


def enumerated(gen, per):
    r = util.rng('P22 gen')
    r.shuffle(gen)
    leaf = [{'t': 'ci', 'a': {}, 'x': x, 'k': []} for x in 'fab']
    asked = leaf + [{'t': 'apply', 'a': {}, 'x': '', 'k': [leaf[0], y]} for y in leaf[1:]]
    out = []
    for k in range(0, len(gen), per):
        tree = []
        for i, seq in enumerate(gen[k:k + per]):
            ev = stream(seq)
            tree.append({'dir': [], 'name': '%d.harvest' % i, 'kind': 'file', 'stream': {'events': ev, 'xml': streams.render(ev, r).decode('latin-1')}})
        out.append({'tree': tree, 'ren': r.random() < .3, 'asked': asked, 'steps': [{'op': 'export', 'rec': False, 'ext': 'harvest', 'sayext': False}]})
    return out


def run():
    rep = util.Report('P22', 'model_checking')
    search.need('docs2harvest', 'harvests2json')
    gen = model(rep)
    rep.add('harvests_generated', len(gen))
    S = [trace.Session(sc, exports.session, 'P22 enumerated harvests part %d' % i) for i, sc in enumerate(enumerated(gen, 30))]
    S += [trace.Session(scenario(i), exports.session, 'P22 scenario %d' % i) for i in range(3000 if util.THOROUGH else 1000)]
    S = [trace.Session(crowded(i), exports.session, 'P22 crowded %d' % i) for i in range(60 if util.THOROUGH else 6)] + S
    trace.check(rep, 'ExportTrace', S)
    return rep.finish()
