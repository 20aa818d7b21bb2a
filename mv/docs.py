"""Documents for the converter: generation, rendering, running it, reading the harvest."""
import glob, json, os, re, subprocess
from xml.parsers import expat
from . import search, util, xmlgen as xg

NS = {'m:': 'http://www.w3.org/1998/Math/MathML', 'xlink:': 'http://www.w3.org/1999/xlink'}
ENC = 'MathML-Content'
WORDS = ['the', 'sum', 'of', 'a&b', 'x<y', 'is', 'é', '𝒳', '"so"', "it's", 'math', 'math1', '>', ']]>', '%s', '\\n', '&amp;', 'ab', '0']


def elem(t, k=(), a=(), p='', u=False):
    return {'t': t, 'p': p, 'u': u, 'a': sorted([n, v, ':' in n] for n, v in dict(a).items()), 'k': list(k), 'x': '', 'w': []}


def text(x):
    return {'t': '', 'p': '', 'u': False, 'a': [], 'k': [], 'x': x, 'w': re.findall(r'[^ \t\n\r\f\v]+', x)}


class Gen:
    """One document.  style: xhtml (default namespaces), prefix (m:math), plain (no namespaces), html."""

    def __init__(self, r, style, size=3, ids=None, odd=True):
        self.r, self.style, self.size, self.odd = r, style, size, odd
        self.n, self.ids = 0, ids or []

    def words(self, n=4):
        r = self.r
        ws = [r.choice(WORDS) for _ in range(r.randint(0, n))]
        return text(r.choice(['', ' ', '\n ']) + r.choice([' ', '  ', '\n', '\t']).join(ws) + r.choice(['', ' ']))

    def h(self, t, k=(), a=()):
        return elem(t, k, a, u=self.style == 'xhtml')

    def me(self, t, k=(), a=()):
        return elem(t, k, a, p='m:' if self.style == 'prefix' else '', u=self.style in ('xhtml', 'prefix'))

    def id(self):
        r = self.r
        self.n += 1
        if self.ids and r.random() < .1:
            return r.choice(self.ids)
        i = 'f%d' % self.n
        if self.odd and r.random() < .15:
            i = r.choice(['p1.1.m%d', 'é%d', 'a"b%d', 'x<%d', '&%d', "q'%d", '%d', '#%d']) % self.n
        self.ids.append(i)
        return i

    def attrs(self, extra=()):
        r, a = self.r, {}
        if r.random() < .4:
            a['id'] = r.choice(['p1', 'a"b', 'x<&'])
        if r.random() < .3:
            a['xref'] = 'm1.1'
        if r.random() < .15:
            a[r.choice(['type', 'cd', 'base', 'name'])] = r.choice(['integer', 'a<b"&', 'é'])
        if r.random() < .08:
            a['encoding'] = r.choice(['MathML-Presentation', 'text'])
        if r.random() < .12 and self.style in ('xhtml', 'prefix'):
            a['xlink:href'] = '#x'
        if r.random() < .06 and self.style != 'html':
            a['xml:id'] = 'z'
        return a

    def term(self, depth):
        r = self.r
        t, x = r.choice(xg.LEAVES)
        if depth and r.random() < .65:
            t, x = r.choice(xg.HEADS)
            kids = [self.me(t, [text(x)] if x else [], self.attrs())] + [self.term(depth - 1) for _ in range(r.randint(1, 2))]
            if r.random() < .4:
                kids = [y for c in kids for y in (text('\n '), c)]
            return self.me('apply', kids, self.attrs())
        if r.random() < .1:
            x = r.choice(['é', '<', '&', '𝒳', '"', 'a b', '>'])
        ks = [text(x)] if x else []
        if x and self.odd and r.random() < .1:
            ks = [text(x), text('_')]
        return self.me(t, ks, self.attrs())

    def math(self, depth=2, nested=True):
        r = self.r
        kids = [self.me('mrow', [self.me('mi', [text(r.choice(['x', 'y<', '&']))], self.attrs())])]
        k = r.random()
        body = [text('\n'), self.term(depth)] if r.random() < .3 else [self.term(depth)]
        if k < .7:
            ann = [self.me('annotation-xml', body, {'encoding': ENC})]
        elif k < .76:            # the first annotation has no element
            ann = [self.me('annotation-xml', [text('none')], {'encoding': ENC}), self.me('annotation-xml', body, {'encoding': ENC})]
        elif k < .82:            # several terms, several annotations
            ann = [self.me('annotation-xml', body + [self.term(1)], {'encoding': ENC, 'id': 'c1'}),
                   self.me('annotation-xml', [self.term(1)], {'encoding': ENC})]
        elif k < .86:            # another element with the encoding, deeper
            ann = [self.me('foo', [self.me('bar', [self.me('annotation-xml', body, {'encoding': ENC})])])]
        elif k < .9:
            ann = [self.me('annotation-xml', [self.term(1)], {'encoding': 'MathML-Presentation'})]
        elif k < .94:
            ann = [self.me('annotation', [text('x^2')], {'encoding': 'application/x-tex'}),
                   self.me('annotation-xml', body, {'encoding': ENC})]
        else:
            ann = []
        if r.random() < .5:
            r.shuffle(ann)
        # another formula within, which is not the content of this one
        if nested and r.random() < .08 and k < .86:
            ann.append(self.me('annotation-xml', [self.math(1, False)], {'encoding': 'MathML-Presentation'}))
        top = [self.me('semantics', kids + ann)] if r.random() < .8 else kids + ann
        a = {'alttext': r.choice(['x', 'a<b'])} if r.random() < .2 else {}
        if r.random() < .9:
            a['id'] = self.id()
        return self.me('math', top, a)

    def flow(self, depth):
        r, out = self.r, []
        for _ in range(r.randint(0, self.size)):
            c = r.random()
            if c < .4:
                out.append(self.words())
            elif c < .7:
                out.append(self.math(r.choice([0, 1, 2])))
            elif depth:
                out.append(self.h(r.choice(['span', 'b', 'em']), self.flow(depth - 1), {'class': 'c'} if r.random() < .2 else {}))
        return out

    def document(self):
        r = self.r
        head = [self.h('title', [self.words()])]
        for nm in ['author', 'date']:
            if r.random() < .6:
                head.append(self.h('meta', [], {'name': nm, 'content': r.choice(['A. U. Thor', 'é & <b>', '2014', ''])}))
        body = [self.h('div', [self.h('p', self.flow(2), {'id': 'par'} if r.random() < .2 else {}) for _ in range(r.randint(0, self.size))],
                       {'class': r.choice(['main', 'abstract'])}) for _ in range(r.randint(0, 2))]
        root = self.h('html', [self.h('head', head), self.h('body', body)])
        return elem('#doc', [root])


def render(r, style, doc, cdata=False):
    root = doc['k'][0]
    o = []
    if style != 'html' and r.random() < .6:
        o.append('<?xml version="1.0"%s?>\n' % r.choice(['', ' encoding="UTF-8"']))
    if style in ('xhtml', 'prefix') and r.random() < .3:
        o.append('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.1 plus MathML 2.0//EN" "http://www.w3.org/Math/DTD/mathml2/xhtml-math11-f.dtd">\n')
    elif r.random() < .3:
        o.append('<!DOCTYPE html>\n')
    misc = ['<!-- c -->'] + (['<?p i?>'] if style != 'html' else [])

    def walk(n, content, prev, inmath=False):
        if n['t'] == '':
            if prev:
                o.append(r.choice(misc))
            x = n['x']
            if cdata and content and style != 'html' and x and ']]>' not in x and r.random() < .05:
                o.append('<![CDATA[%s]]>' % x)
            else:
                o.append(xg.esc(x).replace('\v', ' '))
            return
        o.append('<' + n['p'] + n['t'])
        a = [(k, v) for k, v, _ in n['a']]
        if n is root:
            if style == 'xhtml':
                a.append(('xmlns', 'http://www.w3.org/1999/xhtml'))
            if style == 'prefix':
                a.append(('xmlns:m', NS['m:']))
            if style in ('xhtml', 'prefix'):
                a.append(('xmlns:xlink', NS['xlink:']))
            if style == 'html':
                o.append(' class=bare')
        if n['t'] == 'math' and style in ('xhtml', 'html') and (style == 'xhtml' or r.random() < .5):
            a.append(('xmlns', NS['m:']))
        r.shuffle(a)
        for k, v in a:
            q = "'" if "'" not in v and r.random() < .2 else '"'
            v = xg.esca(v)
            o.append(' %s=%s%s%s' % (k, q, v, q))
        void = style == 'html' and n['t'] in ('meta',)
        if void or (not n['k'] and (style != 'html' or inmath) and r.random() < .7):
            o.append('>' if void else '/>')
            return
        o.append('>')
        was = False
        inside = content or n['t'] == 'annotation-xml'
        for c in n['k']:
            walk(c, inside, was and c['t'] == '', inmath or n['t'] == 'math')
            was = c['t'] == ''
            if style == 'html' and c['t'] == 'head':
                o.append('\n')
        if style == 'html' and n['t'] in ('p', 'body', 'html') and r.random() < .5:
            if n['t'] == 'p':
                o.append('<br>')
            return                      # the end tag may be left out
        o.append('</' + n['p'] + n['t'] + '>')
    walk(root, False, False)
    return ''.join(o).encode()


def sel(t='', plain=False, wn='', wv='', at=''):
    return {'t': t, 'plain': plain, 'wn': wn, 'wv': wv, 'at': at}


def xpath(s):
    if s['t'] == '':
        return '/'
    x = '//' + (s['t'] if s['plain'] else "*[local-name()='%s']" % s['t'])
    if s['wn']:
        x += "[@%s='%s']" % (s['wn'], s['wv'])
    return x + ('/@' + s['at'] if s['at'] else '')


def selector(r):
    return r.choice([sel('title'), sel('title', True), sel('meta', wn='name', wv='author', at='content'),
                     sel('meta', True, 'name', 'date', 'content'), sel('p'), sel('div', wn='class', wv='main'), sel('div', True),
                     sel('body'), sel('nosuch'), sel('span'), sel('math'), sel('p', at='id'), sel('b')])


def garbage(r, good):
    """Bytes about which nothing is known, but that they are no business of the other documents."""
    k = r.random()
    if k < .12:
        return b''
    if k < .2:
        return b'\\documentclass{article}\\begin{document}$a<b$ & \x80\xff \\end{document}'
    if k < .26:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 50, 400])))
    if k < .32:
        return b'<html>' + b'<div>' * 400 + b'x'
    b = bytearray(good)
    for _ in range(r.choice([1, 2, 6])):
        i = r.randrange(len(b))
        c = r.random()
        if c < .55:
            b[i:i] = r.choice([b'\xff\xfe', b'\x01', b'\xc3', b'&#0;', b'&#x1F;', b'&foo;', b'&nbsp;', b'&#xFFFE;', b'\xef\xbf\xbe',
                               b'\xed\xa0\x80', b']]>', b'<!--', b'-->', b'<?x ', b'\xf0\x9d\x92\xb3', b'<', b'>', b'"', b'</', b'<m:x y:z="1">', b'\x00'])
        elif c < .8:
            del b[i:i + r.randrange(1, 9)]
        else:
            b[i] = r.randrange(256)
        if not b:
            break
    return bytes(b)


# --------------------------------------------------------------------------
# running the converter

def to_term(data):
    """One element as {t, a, x, k}."""
    root, st = [], []

    def start(n, a):
        e = {'t': n, 'a': sorted([k, v] for k, v in a.items() if k != 'xmlns' and not k.startswith('xmlns:')), 'x': '', 'k': []}
        (st[-1]['k'] if st else root).append(e)
        st.append(e)

    def chars(x):
        if st:
            st[-1]['x'] += x

    def end(n):
        st.pop()
    p = expat.ParserCreate('UTF-8')
    p.buffer_text = True
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.Parse(data, True)
    return root[0]


def read_harvest(data):
    """The items of a harvest file (see spec/Docs.tla), or why it cannot be read."""
    try:
        import xml.etree.ElementTree as ET
        ET.fromstring(data)                      # well formed, every prefix declared
        root = to_term(data)
        assert root['t'] == 'mws:harvest', root['t']
        items = []
        for c in root['k']:
            a = dict(c['a'])
            if c['t'] == 'mws:data':
                parts = [x['t'] for x in c['k']]
                assert parts[:3] == ['id', 'text', 'metadata'] and set(parts[3:]) <= {'math'}, parts
                assert set(a) == {'mws:data_id'}, a
                i, t, m = c['k'][:3]
                math = []
                for x in c['k'][3:]:
                    assert not x['k'] and [k for k, _ in x['a']] == ['local_id'], x['a']
                    try:
                        math.append([x['a'][0][1], to_term(x['x'].encode())])
                    except expat.ExpatError:
                        math.append([x['a'][0][1], {'t': 'BAD', 'a': [], 'x': x['x'][:200], 'k': []}])
                assert not i['k'] and not t['k'] and not any(x['k'] for x in m['k'])
                items.append({'i': 'data', 'did': a['mws:data_id'], 'id': i['x'], 'text': t['x'],
                              'meta': [[x['t'], x['x']] for x in m['k']], 'math': math})
            else:
                assert c['t'] == 'mws:expr' and len(c['k']) == 1, c['t']
                assert set(a) <= {'url', 'mws:data_id'} and 'url' in a, a
                items.append({'i': 'expr', 'did': a.get('mws:data_id', ''), 'url': a['url'], 'term': c['k'][0]})
        return items, ''
    except Exception as x:
        return [], '%s: %s' % (type(x).__name__, str(x)[:300])


def options(opts, d):
    args = []
    if opts['hasconf']:
        c = opts['conf']
        path = os.path.join(d, 'conf.json')
        with open(path, 'w') as f:
            json.dump({'shouldSaveData': c['data'], 'documentIdXpath': xpath(c['id']) if c['hasid'] else '',
                       'textWithMathXpath': xpath(c['text']), 'metadata': {m['name']: xpath(m['sel']) for m in c['meta']}}, f,
                      ensure_ascii=False)
        args += ['-c', path]
    if opts['hasx']:
        args += ['-x', xpath(opts['x'])]
    if opts['n']:
        args.append('-n')
    return args


def convert(sc, outdir=None):
    """Run docs2harvest on the documents of the scenario in the order given; one event."""
    d = util.newdir('docs')
    docs, paths = [], []
    for i, x in enumerate(sc['docs']):
        name = x['name'].encode('utf-8', 'surrogateescape')
        p = os.path.join(d.encode(), name)
        if x['kind'] != 'missing':
            with open(p, 'wb') as f:
                f.write(bytes.fromhex(x['hex']))
        elif x.get('dir'):
            os.makedirs(p, exist_ok=True)
        paths.append(p)
        shown = p.decode('utf-8', 'replace')
        docs.append({'kind': x['kind'], 'path': shown, 'tree': x['tree'] if x['kind'] == 'good' else elem('#doc')})
    out = outdir or os.path.join(d, 'out')
    if sc.get('outexists'):
        os.makedirs(out, exist_ok=True)
    before = set(glob.glob(out + '/*.harvest'))
    r = subprocess.run([search.find('docs2harvest'), '-o', out] + options(sc['opts'], d) + paths, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=120)
    fs = sorted(set(glob.glob(out + '/*.harvest')) - before)
    items, bad = ([], 'no harvest') if len(fs) != 1 else read_harvest(open(fs[0], 'rb').read())
    return {'e': 'Convert', 'opts': sc['opts'], 'docs': docs, 'rc': r.returncode, 'files': len(fs), 'bad': bad, 'items': items}, fs


def session(sc):
    ev, _ = convert(sc)
    return [ev]
