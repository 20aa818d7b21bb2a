"""The schema daemon: requests and reading its answers."""
import json
from xml.parsers import expat
from . import search, streams, xmlgen as xg
from .server import Server, free_port


def start(*args, env=None):
    port = free_port()
    return Server([search.find('schemad'), '-p', str(port)] + list(args), port, env=env)


def tree(xml):
    """One element as {t, x, k}; the white space of pretty printing is dropped."""
    root, st = [], []

    def start(n, a):
        e = {'t': n, 'a': {}, 'x': '', 'k': []}
        (st[-1]['k'] if st else root).append(e)
        st.append(e)

    def chars(x):
        st[-1]['x'] += x

    def end(n):
        e = st.pop()
        e['x'] = e['x'].strip(' \t\r\n')
    p = expat.ParserCreate('UTF-8')
    p.buffer_text = True
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.Parse(xml if isinstance(xml, bytes) else xml.encode(), True)
    return root[0]


def parse_json(body):
    try:
        d = json.loads(body.decode())
        return {'total': d['total'], 'size': d['size'], 'bad': '', 'schemata': [
            {'cov': s['coverage'], 'f': s['formulae'], 'subst': s['subst'], 'tree': tree(s['cmmlSchema'])} for s in d['schemata']]}
    except Exception as x:
        return {'total': -1, 'size': -1, 'schemata': [], 'bad': '%s: %r' % (x, body[:200])}


def parse_xml(body):
    import xml.etree.ElementTree as ET
    ns = '{http://www.mathweb.org/mws/ns}'
    try:
        root = ET.fromstring(body)                  # well-formed, with the right names
        assert root.tag == ns + 'schemata', root.tag
        assert all(c.tag == ns + 'schema' and [m.tag for m in c] == ['math'] for c in root)
        t = tree(body)
        return {'total': int(root.attrib['total']), 'size': int(root.attrib['size']), 'bad': '', 'schemata': [
            {'cov': int(c.attrib['coverage']), 'f': [], 'subst': [], 'tree': s['k'][0]['k'][0]}
            for c, s in zip(root, t['k'])]}
    except Exception as x:
        return {'total': -1, 'size': -1, 'schemata': [], 'bad': '%s: %r' % (x, body[:200])}


def from_stream(sq, xref='r'):
    """A raw term from tokens {m, ar} in pre-order, each with its own xref."""
    it = iter(enumerate(sq))

    def node():
        i, x = next(it)
        t, _, text = x['m'].partition('#')
        return {'t': t, 'a': {'xref': '%s.%d' % (xref, i)}, 'x': text, 'k': [node() for _ in range(x['ar'])]}
    return node()


def with_xrefs(t, r, p, xref='r'):
    n = [0]

    def go(t):
        n[0] += 1
        a = dict(t['a'])
        a.pop('xref', None)
        if r.random() < p:
            a['xref'] = '%s.%d' % (xref, n[0])
        return {'t': t['t'], 'a': a, 'x': t['x'], 'k': [go(c) for c in t['k']]}
    return go(t)


def request(terms, attrs, ren, r, **kw):
    from . import httpx
    ev = httpx.query_events(None, attrs, terms)
    return dict({'m': 'POST', 'url': '/', 'events': ev, 'body': streams.render(ev, r, noise=.03).decode('latin-1'),
                 'chunked': False, 'together': True, 'schema': {'ren': ren}}, **kw)


def session(sc):
    from . import httpx
    srv = start(*(['-c'] if sc['ren'] else []), env=sc.get('env'))
    ev = [search.fact('server starts', srv.up, True)]
    for rq in sc['reqs']:
        if not srv.alive():
            break
        ev.append(httpx.req_event(rq, 's', '', httpx.exchange(srv.port, rq)))
    from .props import p10
    return p10.finish(ev, srv, sc)
