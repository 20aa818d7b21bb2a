"""HTTP exchanges with the daemons: requests cut in any way, schedules of several connections, aborts."""
import socket, struct, time
from . import util, search, streams, xmlgen as xg
from .server import parse_json_answer, parse_ids_answer, parse_xml_answer, read_response

METHODS = ['POST', 'GET', 'OPTIONS', 'PUT', 'DELETE', 'HEAD', 'PATCH', 'FOO']


def query_events(q, attrs, many=None):
    ev = [streams.S('mws:query', **dict({'xmlns__mws': 'http://www.mathweb.org/mws/ns'}, **attrs))]
    for t in (many or [q]):
        ev += [streams.S('mws:expr')] + streams.term_events(t) + [streams.E]
    return ev + [streams.E]


def request_bytes(rq):
    """(head, [body fragments]) as bytes."""
    body = rq['body'].encode('latin-1')
    cuts = sorted(c % (len(body) + 1) for c in rq.get('cuts', []))
    frags = [body[a:b] for a, b in zip([0] + cuts, cuts + [len(body)])]
    h = ['%s %s HTTP/1.1' % (rq['m'], rq['url']), 'Host: localhost']
    if rq.get('close'):
        h.append('Connection: close')
    if rq.get('ctype'):
        h.append('Content-Type: ' + rq['ctype'])
    if rq['m'] in ('POST', 'PUT', 'PATCH', 'FOO') and not rq.get('nobody'):
        if rq.get('chunked'):
            h.append('Transfer-Encoding: chunked')
            frags = [b'%x\r\n%s\r\n' % (len(f), f) for f in frags if f] + [b'0\r\n\r\n']
        else:
            h.append('Content-Length: %d' % len(body))
    else:
        frags = []
    return ('\r\n'.join(h) + '\r\n\r\n').encode(), frags


def req_event(rq, sname, n, resp):
    st, hd, body = resp
    e = {'e': 'Req', 's': sname, 'n': n, 'm': rq['m'], 'root': rq['url'].split('?')[0] == '/',
         'body': [] if rq.get('nobody') else rq['events'], 'status': st, 'allow': hd.get('allow', ''),
         'acam': hd.get('access-control-allow-methods', ''), 'ctype': hd.get('content-type', '').split(';')[0], 'len': len(body),
         'total': -1, 'hits': [], 'ids': [], 'qvars': [], 'subst': [], 'bad': ''}
    if 'schema' in rq:
        e = {k: e[k] for k in ('s', 'm', 'root', 'body', 'status', 'allow', 'acam', 'ctype', 'len', 'bad')}
        e.update(e='SReq', ren=rq['schema']['ren'], total=-1, size=-1, schemata=[])
    # what HEAD leaves out cannot be looked at
    if st == 200 and rq['m'] == 'POST' and 'schema' in rq:
        from . import schema
        a = next((x['a'] for x in rq['events'] if x['e'] == 'S' and x['n'] == 'mws:query'), {})
        e.update((schema.parse_xml if a.get('output') == 'xml' else schema.parse_json)(body))
    elif st == 200 and rq['m'] == 'POST':
        a = next((x['a'] for x in rq['events'] if x['e'] == 'S' and x['n'] == 'mws:query'), {})
        fmt = a.get('output', 'xml')
        if fmt == 'json':
            e.update(parse_json_answer(body))
        elif fmt == 'mws-ids':
            x = parse_ids_answer(body)
            e.update(total=x['total'], ids=x['ids'], qvars=x['qvars'], bad=x['bad'])
        else:
            x = parse_xml_answer(body)
            e.update(total=x['total'], bad=x['bad'], hits=[h[:3] for h in x['hits']], subst=[h[3] for h in x['hits']])
    elif st == 0:
        e['bad'] = repr(body[:100])
        # nothing at all was sent back and the connection was closed
        e['len'] = 0 if b"before headers: b''" in body or b'reset by peer' in body or b'Broken pipe' in body else 1
    return e


class Conn:
    def __init__(self, port, timeout=20):
        self.s = socket.create_connection(('127.0.0.1', port), timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.pending = bytearray()

    def send(self, b):
        try:
            self.s.sendall(b)
        except OSError:
            pass

    def receive(self, method):
        try:
            return read_response(self.s, method, self.pending)
        except (OSError, ValueError, IndexError) as x:
            return 0, {}, ('io: %s' % x).encode()

    def abort(self, reset=False):
        if reset:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.close()

    def close(self):
        self.s.close()


def exchange(port, rq):
    """One request on its own connection, cut as it says."""
    try:
        c = Conn(port)
    except OSError as x:
        return 0, {}, ('connect: %s' % x).encode()
    head, frags = request_bytes(dict(rq, close=True))
    if rq.get('cuthead'):
        k = rq['cuthead'] % len(head)
        c.send(head[:k])
        time.sleep(.002)
        head = head[k:]
    if rq.get('together'):
        c.send(head + b''.join(frags))
    else:
        c.send(head)
        for f in frags:
            if rq.get('pause'):
                time.sleep(rq['pause'])
            c.send(f)
    r = c.receive(rq['m'])
    c.close()
    return r


def random_query(r, pool, limit=40):
    from . import gen
    q = gen.question(r, pool)
    attrs = {}
    if r.random() < .7:
        attrs['output'] = r.choice(['json', 'xml', 'mws-ids', 'json', 'xml', 'none'])
    if r.random() < .6:
        attrs['answsize'] = str(r.choice([0, 1, 2, 5, 1000]))
    if r.random() < .3:
        attrs['limitmin'] = str(r.choice([0, 1, 3, 50]))
    if r.random() < .2:
        attrs['totalreq'] = r.choice(['yes', 'no'])
    if r.random() < .1:
        attrs['unknown'] = 'x'
    many = None
    if r.random() < .08:
        many = [q, gen.question(r, pool)]
    return query_events(q, attrs, many)


def random_request(r, pool, big=.02):
    """A request of any kind: {m, url, body, events, how it is cut}."""
    c = r.random()
    rq = {'m': 'POST', 'url': '/', 'nobody': False}
    ev = random_query(r, pool)
    if c < .50:
        pass
    elif c < .58:
        k = r.randrange(len(ev))
        ev = ev[:k] + [streams.X]
        if k == 0:
            ev = [streams.X]
    elif c < .64:
        ev = r.choice([[streams.S('mws:query'), streams.E], [streams.S('mws:query'), streams.S('mws:expr'), streams.E, streams.E],
                       [streams.S('foo'), streams.E], [streams.S('mws:query'), streams.S('foo')] + ev + [streams.E, streams.E],
                       [streams.S('mws:harvest')] + ev[1:], [streams.S('wrap')] + ev + [streams.E]])
    elif c < .68:
        ev, rq['nobody'] = [], r.random() < .5
    else:
        rq['m'] = r.choice(METHODS)
    rq['url'] = r.choice(['/'] * 8 + ['/x', '/?q=1', '//', '/index.html', '/a/b?c=d'])
    if ev and ev[0]['e'] == 'X':
        body = r.choice([b'x', b'<', b' ', b'<?xml version="1.0"?>', b'\x00', b'{"a":1}', b'\xff\xfe', b'<a', b'plain text', b'&'])
    else:
        body = streams.render(ev, r) if ev else b''
    if r.random() < big and ev and ev[0]['e'] == 'S' and body[:1] == b'<' and b'\0' not in body and b'<!DOCTYPE' not in body:
        k = body.index(b'>') + 1
        body = body[:k] + b'<!--' + b'x' * r.choice([1000, 40000, 70000, 300000, 1100000, 3000000]) + b'-->' + body[k:]
    rq.update(events=ev, body=body.decode('latin-1'), chunked=r.random() < .4, together=r.random() < .4,
              cuts=[r.randrange(10 ** 6) for _ in range(r.choice([0, 0, 1, 2, 5]))], pause=r.choice([0, 0, .001, .003]),
              cuthead=r.choice([0, 0, 0, r.randrange(1, 100)]),
              ctype=r.choice(['', '', 'application/xml', 'application/x-www-form-urlencoded', 'text/plain; charset=utf-8', 'multipart/form-data; boundary=x']))
    return rq


def play(port, schedule, reqs, sname, n):
    """Play a schedule of ConnMC: [[connection, action]...]; reqs: connection -> request with two cuts."""
    ev, conn, prep = [], {}, {}
    for c, a in schedule:
        rq = reqs[c]
        if a == 'abort' and c not in conn:
            try:
                Conn(port).abort(rq.get('reset', False))
            except OSError:
                pass
            continue
        if a == 'head':
            try:
                conn[c] = Conn(port)
            except OSError as x:
                ev.append(req_event(rq, sname, n, (0, {}, str(x).encode())))
                continue
            head, frags = request_bytes(dict(rq, close=True))
            prep[c] = list(frags)
            conn[c].send(head)
            time.sleep(.001)
        elif c not in conn:
            continue
        elif a == 'frag':
            if prep[c]:
                conn[c].send(prep[c].pop(0))
                time.sleep(.001)
        elif a == 'finish':
            for f in prep[c]:
                conn[c].send(f)
            ev.append(req_event(rq, sname, n, conn[c].receive(rq['m'])))
            conn[c].close()
        elif a == 'abort':
            conn[c].abort(rq.get('reset', False))
    for c in conn.values():
        c.close()
    return ev


def keepalive(port, reqs, sname, n, pipelined):
    """Several requests on one connection; after a refusal without reading the body the connection may be closed."""
    ev = []
    try:
        c = Conn(port)
    except OSError as x:
        return [req_event(reqs[0], sname, n, (0, {}, str(x).encode()))]
    if pipelined:
        c.send(b''.join(b''.join([h] + f) for h, f in map(request_bytes, reqs)))
    for rq in reqs:
        if not pipelined:
            head, frags = request_bytes(rq)
            c.send(head + b''.join(frags))
        r = c.receive(rq['m'])
        ev.append(req_event(rq, sname, n, r))
        if r[0] == 0 or r[1].get('connection', '').lower() == 'close':
            break
    c.close()
    return ev


def storm(port, clients, sname, n, crowd=False):
    """All clients at once: each sends its requests one after another; the events in order of completion."""
    import threading
    ev, lock, bar = [], threading.Lock(), threading.Barrier(len(clients))

    def client(reqs):
        c = None
        bar.wait()
        for rq in reqs:
            if c is None:
                try:
                    c = Conn(port, 60)
                except OSError as x:
                    r = 0, {}, ('connect: %s' % x).encode()
                    with lock:
                        ev.append((rq, r))
                    continue
            head, frags = request_bytes(rq)
            if rq.get('together'):
                c.send(head + b''.join(frags))
            else:
                c.send(head)
                for f in frags:
                    c.send(f)
            if rq.get('leave'):
                c.abort(rq.get('reset', False))
                c = None
                continue
            r = c.receive(rq['m'])
            with lock:
                ev.append((rq, r))
            if rq.get('close') or r[0] == 0 or r[1].get('connection', '').lower() == 'close':
                c.close()
                c = None
        if c is not None:
            c.close()
    ts = [threading.Thread(target=client, args=(x,)) for x in clients]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [dict(req_event(rq, sname, n, r), crowd=crowd) for rq, r in ev]
