"""Exports of harvests: harvests of documents, running the exporter, reading what it wrote."""
import hashlib, json, os, subprocess
from xml.parsers import expat
from . import docs, search, streams, util, xmlgen as xg
from .streams import S, T, E, X

WORDS = docs.WORDS + ['\\', '/', '\x7f', '\u2028', '<math>', '{"index"}']
NAMES = ['author', 'Title', 'a-b', 'x.y', 'id2', 'é', '_m', 'link', 'br', 'title', 'abstract']


def phrase(r, n=4):
    return r.choice(['', ' ', '\n']) + r.choice([' ', '  ', '\n', '\t']).join(r.choice(WORDS) for _ in range(r.randint(0, n))) + r.choice(['', ' '])


def put(ev, tag, x, **a):
    ev.append(S(tag, **a))
    if x:
        ev.append(T(x))
    ev.append(E)


def document(r, k):
    """What stands in a data element."""
    ev = []
    put(ev, 'id', 'doc%d %s' % (k, phrase(r, 2)))
    if r.random() < .9:
        if r.random() < .2:
            ev += [S('text'), T('a '), S('b'), T(phrase(r) or ' '), E, S('math', id='m1'), T('x'), E, T(' z'), E]
        else:
            put(ev, 'text', phrase(r, 8))
    if r.random() < .9:
        ev.append(S('metadata'))
        for _ in range(r.randint(0, 4)):
            if r.random() < .3:
                ev.append(T('\n'))
            put(ev, r.choice(NAMES), phrase(r))
        ev.append(E)
    for i in range(r.randint(0, 3)):
        a = {'local_id': str(r.choice([1, 2, 3, 10]))} if r.random() < .9 else {}
        put(ev, 'math', '<math id="m%d">%s</math>' % (i, phrase(r)), **a)
    return ev


def stream(r, fi, pool, n):
    """A harvest of documents and expressions, most of them linked."""
    ev = [S('mws:harvest', **({'xmlns__mws': 'http://search.mathweb.org/ns'} if r.random() < .7 else {}))]
    ids, k = [], 0
    for i in range(r.randint(1, n)):
        c = r.random()
        if c < .25 or not ids:
            ids.append(r.choice([str(len(ids)), 'd', 'x y']))
            ev.append(S('mws:data', mws__data_id=ids[-1]))
            ev += document(r, k) if r.random() < .95 else streams.data_events(xg.rdata(r, 1, streams.TEXTS[:-1]))
            ev.append(E)
            k += 1
        else:
            a = {'url': r.choice(['1', '2', '3', 'f%d/u%d' % (fi, i), 'u#a&b<">', 'é', ''])}
            if r.random() < .93:
                a['mws__data_id'] = r.choice(ids) if r.random() < .95 else 'nowhere'
            ev.append(S('mws:expr', **a))
            for _ in range(r.choice([1, 1, 1, 1, 2, 0])):
                ev += streams.term_events(xg.noisy(r.choice(pool), r))
            ev.append(E)
        if r.random() < .05:
            ev += [S('foo'), T('x'), E]
    ev.append(E)
    if r.random() < .12:
        ev = ev[:r.randrange(1, len(ev))] + [X]
    return ev


def parse_events(data):
    """The parse events of a well-formed harvest."""
    ev = []

    def start(n, a):
        ev.append({'e': 'S', 'n': n, 'a': a, 'al': ['%s=%s' % (k, a[k]) for k in sorted(a)]})

    def end(n):
        ev.append(E)

    def chars(x):
        ev.append(T(x))
    p = expat.ParserCreate('UTF-8')
    p.buffer_text = True
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.Parse(data, True)
    return ev


def read_export(path):
    """The records of an exported file, or why it cannot be read."""
    recs = []
    try:
        lines = open(path, encoding='utf-8', newline='').read().split('\n')
        assert lines and lines[-1] == '', 'no final newline'
        lines.pop()
        assert len(lines) % 2 == 0, 'odd number of lines'

        def once(pairs):
            assert len({k for k, _ in pairs}) == len(pairs), 'name twice'
            return dict(pairs)
        for a, b in zip(lines[::2], lines[1::2]):
            a = json.loads(a, object_pairs_hook=once)
            b = json.loads(b, object_pairs_hook=once)
            assert set(a) == {'index'} and set(a['index']) == {'_id'}, 'header'
            assert set(b) == {'metadata', 'mws_ids', 'mws_id', 'math', 'text'}, 'names'
            hits = [[int(k), [[u, h['xpath']] for u, h in v.items()]] for k, v in b['mws_id'].items()]
            assert all(isinstance(i, int) for i in b['mws_ids'])
            recs.append({'id': a['index']['_id'], 'text': b['text'], 'meta': [[k, v] for k, v in b['metadata'].items()],
                         'math': [[k, v] for k, v in b['math'].items()], 'ids': b['mws_ids'], 'hits': hits})
        return recs, ''
    except Exception as x:
        return [], '%s: %s' % (type(x).__name__, str(x)[:200])


def digest(p):
    try:
        with open(p, 'rb') as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return None


def listing(d):
    return {os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs}


def session(sc):
    """Harvest tree -> index -> searches in the id format, exports, changes in between."""
    d = util.newdir('s')
    top = os.path.join(d, 'h')
    os.mkdir(top)
    tree = []

    def add(e):
        p = os.path.join(top, *e['dir'], e['name'])
        os.makedirs(os.path.dirname(p) if e['kind'] != 'dir' else p, exist_ok=True)
        ev = e['stream']['events']
        if e['kind'] == 'file':
            with open(p, 'wb') as f:
                f.write(e['stream']['xml'].encode('latin-1'))
        tree.append({'dir': ['h'] + e['dir'], 'name': e['name'], 'kind': e['kind'], 'ok': True, 'stream': {'events': ev}})
    events = []
    if sc.get('convert'):                      # harvests made by the converter
        for c in sc['convert']:
            ce, fs = docs.convert(c, os.path.join(d, 'conv'))
            x = open(fs[0], 'rb').read()
            add({'dir': [], 'name': 'c%d.harvest' % len(tree), 'kind': 'file', 'stream': {'events': parse_events(x), 'xml': x.decode('latin-1')}})
    for e in sc['tree']:
        add(e)
    idir = os.path.join(d, 'i')
    ren = ['-c'] if sc['ren'] else []
    rc, _ = search.mws_index(top, idir, '-r', *ren)
    events.append({'e': 'Tree', 'n': 'A', 'tree': list(tree), 'tops': [['h']], 'ext': 'harvest', 'rec': True, 'ren': sc['ren'], 'data': True})
    events.append({'e': 'Built', 'n': 'A', 'rc': rc})
    if rc:
        return events
    srv = search.start_mwsd('-D', idir, *ren)
    events.append(search.fact('server starts', srv.up, True))
    if srv.up:
        for q in sc['asked']:
            events.append(search.ids_event(srv, 'A', q, 0, 1000))
    srv.kill()
    for op in sc['steps']:
        if op['op'] == 'export':
            paths = [os.path.join(d, *e['dir'], e['name']) for e in tree]
            before = {p: digest(p + '.json') for p in paths}
            there = listing(top)
            args = ren + (['-r'] if op['rec'] else []) + (['-e', op['ext']] if op['ext'] != 'harvest' or op['sayext'] else [])
            r = subprocess.run([search.find('harvests2json'), '-I', idir, '-H', top] + args, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=120)
            files = []
            for e, p in zip(tree, paths):
                after = digest(p + '.json')
                had = before[p] is not None
                recs, bad = read_export(p + '.json') if after and not had else ([], '')
                files.append({'name': e['name'], 'had': had, 'same': before[p] == after, 'exists': after is not None, 'recs': recs, 'bad': bad})
            others = sorted(os.path.relpath(x, top) for x in listing(top) - there - {p + '.json' for p in paths})
            events.append({'e': 'Export', 'n': 'A', 'tree': list(tree), 'top': ['h'], 'ext': op['ext'], 'rec': op['rec'], 'rc': r.returncode,
                           'files': files, 'others': others})
        elif op['op'] == 'add':
            add(op['entry'])
        else:
            e = tree[op['i'] % len(tree)]
            p = os.path.join(d, *e['dir'], e['name']) + '.json'
            if op['op'] == 'remove' and os.path.exists(p):
                os.remove(p)
            elif op['op'] == 'own' and e['kind'] != 'dir':
                with open(p, 'w') as f:
                    f.write(op['x'])
    return events
