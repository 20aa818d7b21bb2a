"""Terms <-> XML, random terms, queries and harvests, with surface noise."""
import json, re
from xml.parsers import expat
from xml.sax.saxutils import escape

WS = [' ', '\n', '\t', '  \n ']


def tok(t, x='', k=(), **a):
    return {'t': t, 'a': dict(a), 'x': x, 'k': list(k)}


def qvar(name=''):
    return tok('mws:qvar', name)


def rangetok(low=None, high=None):
    a = {}
    if low is not None:
        a['low'] = low
    if high is not None:
        a['high'] = high
    return {'t': 'mws:range', 'a': a, 'x': '', 'k': []}


def esc(s):
    return escape(s).replace('\r', '&#13;')


def esca(s):
    return (escape(s, {'"': '&quot;'}).replace('\n', '&#10;').replace('\t', '&#9;').replace('\r', '&#13;'))


def to_xml(t):
    """Serialise a raw token (text first, then children)."""
    return '<%s%s>%s%s</%s>' % (t['t'], ''.join(' %s="%s"' % (k, esca(v)) for k, v in t['a'].items()),
                                esc(t['x']), ''.join(to_xml(c) for c in t['k']), t['t'])


def noisy(t, r, p=0.15):
    """A copy of t with surface noise that must not matter: prefixes, white space, attributes."""
    n = {'t': t['t'], 'a': dict(t['a']), 'x': t['x'], 'k': [noisy(c, r, p) for c in t['k']]}
    special = t['t'].startswith('mws:')
    if not special and r.random() < p:
        n['t'] = 'm:' + n['t']
    if r.random() < p and not special:
        n['a'][r.choice(['id', 'xref', 'type', 'class'])] = r.choice(['a', 'p1.2', 'x"<'])
    if t['t'].startswith('mws:range'):
        return n
    if r.random() < p:
        if n['x'] and r.random() < .7:
            i = r.randrange(len(n['x']) + 1)
            n['x'] = n['x'][:i] + r.choice(WS) + n['x'][i:]
        else:
            n['x'] = r.choice(WS) + n['x'] + r.choice(WS)
    if t['t'] == 'mtext' and r.random() < .6:
        n['x'] = r.choice(['', 'if', 'and then', 'where x=1'])
    return n


def harvest_xml(items):
    """XML of a well-formed harvest given as items (see spec/Harvest.tla)."""
    o = ['<?xml version="1.0" ?>\n<mws:harvest xmlns:m="http://www.w3.org/1998/Math/MathML" '
         'xmlns:mws="http://search.mathweb.org/ns">\n']
    for it in items:
        if it['i'] == 'data':
            o.append('<mws:data mws:data_id="%s">%s</mws:data>\n' % (esca(it['id']), toks_to_xml(it['toks'])))
        else:
            o.append('<mws:expr%s%s>%s</mws:expr>\n' % (
                ' url="%s"' % esca(it['url']) if it['url'] != '' else '',
                ' mws:data_id="%s"' % esca(it['id']) if it['id'] != '' else '',
                ''.join(to_xml(t) for t in it['terms'])))
    o.append('</mws:harvest>\n')
    return ''.join(o)


def toks_to_xml(toks):
    o, stack, i = [], [], 0
    while i < len(toks):
        t = toks[i]
        if t.startswith('S:'):
            stack.append(t[2:])
            o.append('<' + t[2:])
            i += 1
            while i < len(toks) and toks[i].startswith('A:'):
                k, v = toks[i][2:].split('=', 1)
                o.append(' %s="%s"' % (k, esca(v)))
                i += 1
            o.append('>')
            continue
        if t.startswith('T:'):
            o.append(esc(t[2:]))
        else:
            o.append('</%s>' % stack.pop())
        i += 1
    return ''.join(o)


def xml_to_toks(s):
    """Canonical token sequence of an XML fragment; ['BAD:..'] if it is not well formed."""
    toks = []
    p = expat.ParserCreate()
    p.buffer_text = True
    depth = [0]

    def start(n, a):
        if depth[0]:
            toks.append('S:' + n)
            for k in sorted(a):
                toks.append('A:%s=%s' % (k, a[k]))
        depth[0] += 1

    def end(n):
        depth[0] -= 1
        if depth[0]:
            toks.append('E')

    def chars(d):
        if toks and toks[-1].startswith('T:'):
            toks[-1] += d
        else:
            toks.append('T:' + d)
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    try:
        p.Parse(('<r>' + s + '</r>').encode('utf-8', 'surrogatepass'), True)
    except (expat.ExpatError, UnicodeError) as x:
        return ['BAD:' + str(x) + ':' + s[:200]]
    # serialisers end a document with a newline; the generated data never ends with one
    if toks and toks[-1].startswith('T:'):
        toks[-1] = toks[-1].rstrip('\n')
        if toks[-1] == 'T:':
            toks.pop()
    return toks


def query_xml(q, attrs=None, many=None):
    a = ''.join(' %s="%s"' % (k, esca(str(v))) for k, v in (attrs or {}).items())
    body = ''.join('<mws:expr>%s</mws:expr>' % to_xml(t) for t in (many if many is not None else [q]))
    return ('<?xml version="1.0"?>\n<mws:query xmlns:mws="http://www.mathweb.org/mws/ns" '
            'xmlns:m="http://www.w3.org/1998/Math/MathML"%s>%s</mws:query>' % (a, body))


# --------------------------------------------------------------------------
# random terms

LEAVES = [('ci', 'a'), ('ci', 'b'), ('ci', 'x'), ('cn', '1'), ('cn', '2'), ('csymbol', 'f'), ('pi', ''), ('mtext', 'if')]
HEADS = [('plus', ''), ('eq', ''), ('ci', 'f'), ('csymbol', 'f'), ('times', '')]


def rterm(r, depth, leaves=LEAVES, heads=HEADS, maxk=3):
    if depth == 0 or r.random() < 0.25:
        t, x = r.choice(leaves)
        return tok(t, x)
    c = r.random()
    if c < .7:
        h = r.choice(heads)
        return tok('apply', '', [tok(*h)] + [rterm(r, depth - 1, leaves, heads, maxk)
                                            for _ in range(r.randint(1, maxk))])
    if c < .85:
        return tok(r.choice(['list', 'set', 'bvar']), '', [rterm(r, depth - 1, leaves, heads, maxk)
                                                         for _ in range(r.randint(1, 2))])
    if c < .95:
        return tok('apply', '', [rterm(r, depth - 1, leaves, heads, maxk) for _ in range(r.randint(1, maxk))])
    t, x = r.choice(leaves)                       # an element with text and children
    return tok(t, x, [rterm(r, depth - 1, leaves, heads, maxk)])


def subterms(t):
    out = [t]
    for c in t['k']:
        out += subterms(c)
    return out


def size(t):
    return 1 + sum(size(c) for c in t['k'])


def abstracted(t, r, p=0.3, names=('x', 'y', 'z'), binding=None):
    """Replace random subterms by variables; equal subterms often by the same name."""
    if binding is None:
        binding = {}
    if r.random() < p:
        c = r.random()
        if c < .25:
            return qvar()
        key = json.dumps(t, sort_keys=True)
        if key in binding and r.random() < .8:
            n = binding[key]
        else:
            n = r.choice(names)
            binding[key] = n
        return qvar(n) if c < .8 else {'t': 'mws:qvar', 'a': {'name': n}, 'x': '', 'k': []}
    return {'t': t['t'], 'a': dict(t['a']), 'x': t['x'],
            'k': [abstracted(c, r, p, names, binding) for c in t['k']]}


def mutated(t, r, leaves=LEAVES):
    """Change one node of t slightly."""
    n = json.loads(json.dumps(t))
    s = r.choice(subterms(n))
    c = r.random()
    if c < .4 and not s['t'].startswith('mws:'):
        l = r.choice(leaves)
        s['t'], s['x'] = l
    elif c < .6 and s['k']:
        s['k'].pop(r.randrange(len(s['k'])))
    elif c < .8 and s['k']:
        s['k'].append(json.loads(json.dumps(r.choice(s['k']))))
    elif len(s['k']) > 1:
        r.shuffle(s['k'])
    return n


DATA_TAGS = ['id', 'p', 'text', 'm:math', 'span']


def rdata(r, depth=2, chars=None):
    """Random data content as canonical tokens."""
    chars = chars or ['doc', 'a b', 'x < y & z', '"q"', "it's", 'é∑', ' ', '1', ']]>'[0:2]]
    out = []
    for _ in range(r.randint(1, 3)):
        c = r.random()
        if c < .5 or depth == 0:
            tx = r.choice(chars)
            if out and out[-1].startswith('T:'):
                out[-1] += tx
            else:
                out.append('T:' + tx)
        else:
            out.append('S:' + r.choice(DATA_TAGS))
            at = {}
            for _ in range(r.choice([0, 0, 1, 2])):
                at[r.choice(['id', 'xml:lang', 'class'])] = r.choice(['a', 'p "1"', '<&>', 'é', "a'b"])
            for k in sorted(at):
                out.append('A:%s=%s' % (k, at[k]))
            out += rdata(r, depth - 1, chars)
            out.append('E')
    return out


def item_events(items, limit=257):
    """The parse events of a well-formed harvest; an error where elements nest deeper than the XML parser allows."""
    ev = [{'e': 'S', 'n': 'mws:harvest', 'a': {}, 'al': []}]
    depth = [1]

    def start(n, a):
        if ev[-1]['e'] == 'X':
            return
        depth[0] += 1
        ev.append({'e': 'X'} if depth[0] > limit else {'e': 'S', 'n': n, 'a': a, 'al': ['%s=%s' % (k, a[k]) for k in sorted(a)]})

    def text(x):
        if x and ev[-1]['e'] != 'X':
            ev.append({'e': 'T', 'x': x})

    def end():
        depth[0] -= 1
        if ev[-1]['e'] != 'X':
            ev.append({'e': 'E'})

    def term(t):
        start(t['t'], t['a'])
        text(t['x'])
        for c in t['k']:
            term(c)
        end()
    for it in items:
        assert it['i'] == 'expr'
        a = {}
        if it['url']:
            a['url'] = it['url']
        start('mws:expr', a)
        for t in it['terms']:
            term(t)
        end()
    end()
    return ev
