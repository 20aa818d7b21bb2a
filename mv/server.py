"""Running the real daemons and talking to them."""
import itertools, json, os, re, signal, socket, subprocess, threading, time
from . import util
from .xmlgen import xml_to_toks
from xml.parsers import expat


_ports = itertools.count(int.from_bytes(os.urandom(2), 'big'))
_ports_lock = threading.Lock()


def free_port():
    """A port nobody listens on, below the range of ephemeral ports, not given to anybody else in this run."""
    with _ports_lock:
        while True:
            port = 10000 + next(_ports) % 22000
            with socket.socket() as s:
                try:
                    s.bind(('0.0.0.0', port))
                    return port
                except OSError:
                    pass


class ServerDied(Exception):
    pass


class Server:
    """A daemon process listening on a loopback port."""

    def __init__(self, argv, port, wait=30, env=None, cwd=None, popen=None):
        self.port = port
        self.logf = os.path.join(util.newdir('srv'), 'log')
        self.out = open(self.logf, 'wb')
        e = dict(os.environ)
        e.update(env or {})
        kw = dict(env=e, cwd=cwd or util.scratch(), start_new_session=True)
        kw.update(popen or {})
        self.p = subprocess.Popen(argv, stdout=self.out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **kw)
        self.up = False
        t = time.time()
        while time.time() - t < wait:
            if self.p.poll() is not None:
                break
            try:
                socket.create_connection(('127.0.0.1', port), 1).close()
                self.up = True
                break
            except OSError:
                time.sleep(0.01)
        if self.up and self.p.poll() is not None:
            self.up = False

    def alive(self):
        return self.p.poll() is None

    def settle(self, wait=5):
        """Wait until the threads of all connections have ended (at most `wait` seconds)."""
        t = time.time()
        calm = 0
        while time.time() - t < wait and calm < 3:
            try:
                calm = calm + 1 if len(os.listdir('/proc/%d/task' % self.p.pid)) <= 2 else 0
            except OSError:
                return
            time.sleep(.003)

    def log(self):
        with open(self.logf, 'rb') as f:
            return f.read().decode('utf-8', 'replace')

    def stop(self, sig=signal.SIGTERM, wait=15):
        """Terminate; returns the exit status (-999 if it had to be killed)."""
        if self.p.poll() is None:
            self.p.send_signal(sig)
            try:
                self.p.wait(wait)
            except subprocess.TimeoutExpired:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
                self.out.close()
                return -999
        self.out.close()
        return self.p.returncode

    def kill(self):
        if self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL)
        self.p.wait()
        self.out.close()


def http(port, method, path, body=None, headers=None, timeout=30, chunks=None, pause=0):
    """One HTTP/1.1 request on its own connection.  Returns (status, headers, body) or (0, {}, reason)."""
    h = {'Host': 'localhost', 'Connection': 'close'}
    payload = []
    if chunks is not None:
        h['Transfer-Encoding'] = 'chunked'
        payload = [b'%x\r\n%s\r\n' % (len(c), c) for c in chunks] + [b'0\r\n\r\n']
    elif body is not None:
        if isinstance(body, str):
            body = body.encode('utf-8', 'surrogateescape')
        h['Content-Length'] = str(len(body))
        payload = [body]
    h.update(headers or {})
    req = '%s %s HTTP/1.1\r\n' % (method, path) + ''.join('%s: %s\r\n' % kv for kv in h.items()) + '\r\n'
    try:
        s = socket.create_connection(('127.0.0.1', port), timeout)
    except OSError as x:
        return 0, {}, ('connect: %s' % x).encode()
    with s:
        s.settimeout(timeout)
        try:
            try:
                s.sendall(req.encode() + (payload[0] if payload and not pause else b''))
                if pause:
                    time.sleep(pause)
                for c in payload[0 if pause else 1:]:
                    s.sendall(c)
                    if pause:
                        time.sleep(pause)
            except OSError:
                pass
            return read_response(s, method)
        except (OSError, ValueError) as x:
            return 0, {}, ('io: %s' % x).encode()


def read_response(s, method='GET', pending=None):
    """Read one response; pending (a bytearray) keeps what was received beyond it."""
    buf = bytes(pending or b'')

    def keep(rest):
        if pending is not None:
            pending[:] = rest

    def more(what):
        d = s.recv(65536)
        if not d:
            raise ValueError('closed %s: %r' % (what, buf[:100]))
        return d
    while b'\r\n\r\n' not in buf:
        buf += more('before headers')
    head, rest = buf.split(b'\r\n\r\n', 1)
    lines = head.decode('latin-1').split('\r\n')
    status = int(lines[0].split(' ')[1])
    hs = {}
    for l in lines[1:]:
        k, v = l.split(':', 1)
        hs[k.strip().lower()] = v.strip()
    if status == 100:
        keep(rest)
        return read_response(s, method, pending if pending is not None else bytearray(rest))
    if method == 'HEAD' or status in (204, 304) or status < 200:
        keep(rest)
        return status, hs, b''
    if 'content-length' in hs:
        n = int(hs['content-length'])
        while len(rest) < n:
            rest += more('in body')
        keep(rest[n:])
        return status, hs, rest[:n]
    if hs.get('transfer-encoding') == 'chunked':
        out = b''
        while True:
            while b'\r\n' not in rest:
                rest += more('in chunk')
            n, rest = rest.split(b'\r\n', 1)
            n = int(n, 16)
            while len(rest) < n + 2:
                rest += more('in chunk')
            out += rest[:n]
            rest = rest[n + 2:]
            if n == 0:
                keep(rest)
                return status, hs, out
    while True:
        d = s.recv(65536)
        if not d:
            keep(b'')
            return status, hs, rest
        rest += d


# --------------------------------------------------------------------------
# reading answers into the vocabulary of the specification


def parse_json_answer(body):
    try:
        d = json.loads(body.decode('utf-8'))
        return {'total': d['total'],
                'hits': [[h['math_ids'][0]['url'], h['math_ids'][0]['xpath'], xml_to_toks(h['xhtml'])]
                         for h in d['hits']],
                'qvars': [[v['name'], v['xpath']] for v in d['qvars']], 'bad': ''}
    except Exception as x:
        return {'total': -1, 'hits': [], 'qvars': [], 'bad': '%s: %r' % (x, body[:200])}


def parse_ids_answer(body):
    try:
        d = json.loads(body.decode('utf-8'))
        return {'total': d['total'], 'size': d['size'], 'ids': list(d['ids']),
                'qvars': [[v['name'], v['xpath']] for v in d['qvars']], 'bad': ''}
    except Exception as x:
        return {'total': -1, 'size': -1, 'ids': [], 'qvars': [], 'bad': '%s: %r' % (x, body[:200])}


def parse_xml_answer(body):
    """XML answer set -> {total, size, hits: [[uri, xpath, data toks, [[qvar, xpath]..]]..]}."""
    import xml.etree.ElementTree as ET
    try:
        root = ET.fromstring(body)
        ns = '{http://www.mathweb.org/mws/ns}'
        if root.tag != ns + 'answset':
            raise ValueError('root is ' + root.tag)
        hits = []
        for a in root:
            if a.tag != ns + 'answ':
                raise ValueError('child is ' + a.tag)
            subst, data = [], None
            for c in a:
                if c.tag == ns + 'substpair':
                    subst.append([c.attrib['qvar'], c.attrib['xpath']])
                elif c.tag == 'data':
                    data = c.text or ''
                else:
                    raise ValueError('child is ' + c.tag)
            hits.append([a.attrib['uri'], a.attrib['xpath'], xml_to_toks(data), subst])
        return {'total': int(root.attrib['total']), 'size': int(root.attrib['size']), 'hits': hits, 'bad': ''}
    except Exception as x:
        return {'total': -1, 'size': -1, 'hits': [], 'bad': '%s: %r' % (x, body[:200])}
