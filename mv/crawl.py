"""A web site to be crawled, and the crawler service driven over HTTP; everything observed is recorded in order."""
import collections, glob, html, itertools, json, os, re, socket, threading, time
from urllib.parse import urljoin, quote_plus
from xml.parsers import expat
from . import util, search, xmlgen as xg
from .server import Server, free_port, read_response

MML = 'http://www.w3.org/1998/Math/MathML'


# --------------------------------------------------------------------------
# the site

class Site:
    """Serves pages by Host header and path; tells `see` about every request."""

    def __init__(self, hosts, see):
        self.hosts, self.see = hosts, see
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        while True:
            self.port = free_port()
            try:
                self.s.bind(('0.0.0.0', self.port))
                break
            except OSError:
                time.sleep(.05)
        self.s.listen(200)
        self.stopped = False
        self.delay = 0
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while not self.stopped:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(20)
            buf = b''
            while True:
                while b'\r\n\r\n' not in buf:
                    d = c.recv(65536)
                    if not d:
                        return
                    buf += d
                head, buf = buf.split(b'\r\n\r\n', 1)
                lines = head.decode('latin-1').split('\r\n')
                m, target, _ = lines[0].split(' ', 2)
                hd = {k.strip().lower(): v.strip() for k, v in (x.split(':', 1) for x in lines[1:])}
                host, _, port = hd.get('host', '').partition(':')
                path, q, query = target.partition('?')
                if int(port or 80) != self.port:
                    host += ':' + port
                self.see({'e': 'Get', 'h': host, 'p': path, 'q': q + query})
                if self.delay:
                    time.sleep(self.delay)
                site = self.hosts.get(host, {'pages': {}})
                pg = site['pages'].get(target)
                if target == '/robots.txt' and pg is None:
                    pg = site.get('robotspage')
                pg = pg or {'status': 404, 'ctype': 'text/html', 'body': '<html><body>not found</body></html>', 'how': 'ok'}
                if pg.get('how') == 'close':
                    return
                body = pg['body'].replace('@PORT@', str(self.port)).encode()
                n = len(body) + (50 if pg.get('how') == 'trunc' else 0)
                name = pg.get('header', 'Content-Type')
                h = 'HTTP/1.1 %d X\r\n%s: %s\r\nContent-Length: %d\r\n%s\r\n' % (
                    pg.get('status', 200), name, pg['ctype'], n, ''.join('%s: %s\r\n' % (k, v.replace('@PORT@', str(self.port))) for k, v in pg.get('headers', {}).items()))
                c.sendall(h.encode() + body)
                if pg.get('how') == 'trunc':
                    return
        except (OSError, ValueError):
            pass
        finally:
            c.close()

    def stop(self):
        self.stopped = True
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()


# --------------------------------------------------------------------------
# rendering

def url(u):
    return 'http://%s:@PORT@%s%s' % (u['h'], u['p'], u['q'])


def href(r, base, u):
    """A reference to u as it may be written on page base."""
    if 'raw' in u:
        return u['raw']
    full = url(u).replace('@PORT@', '9')
    b = url(base).replace('@PORT@', '9')
    cand = [full]
    if u['h'] == base['h']:
        cand += [u['p'] + u['q']] * 4 + ['//%s:9%s%s' % (u['h'], u['p'], u['q'])]
        bd = base['p'].rsplit('/', 1)[0].split('/')
        td = u['p'].split('/')
        k = 0
        while k < len(bd) and k < len(td) - 1 and bd[k] == td[k]:
            k += 1
        rel = '../' * (len(bd) - k) + '/'.join(td[k:]) + u['q']
        cand += [rel] * 4 + ['./' + rel]
        if u['p'] == base['p']:
            cand += [u['q']] * 3
    f = r.choice(cand)
    if urljoin(b, f) != full:
        f = full
    if r.random() < .2:
        f += '#' + r.choice(['', 'top', 'a/b?c'])
    if f == '' and r.random() < .5:
        f = '#'
    return f.replace(':9/', ':@PORT@/')


def link_tag(r, ref, xhtml):
    if ref is None:
        return '<a name="here">anchor</a>'
    e = html.escape(ref, False)
    if xhtml:
        return '<a href="%s">x</a>' % e
    c = r.random()
    at = r.choice(['', ' class="c"', ' id="l" title="t"'])
    if c < .6:
        return '<a%s href="%s">x</a>' % (at, e)
    if c < .75:
        return "<a href='%s'%s>x</a>" % (e, at)
    if c < .85:
        return '<A HREF="%s"%s>x</A>' % (e, at)
    if c < .95:
        return '<a\n  href = "%s"\n>x<b>y</b></a>' % e
    return '<p><a href="%s"><img src="i.png"/></a>' % e


def mtok(t, prefix=''):
    return '<%s%s%s>%s%s</%s%s>' % (prefix, t['t'], ''.join(' %s="%s"' % (k, xg.esca(v)) for k, v in t['a'].items()),
                                    xg.esc(t['x']), ''.join(mtok(k, prefix) for k in t['k']), prefix, t['t'])


def math_html(r, m):
    """m: {id, t} with t a math element."""
    i = [' id="%s"' % xg.esca(m['id'])] if m['id'] else []
    at = i + [x for x in r.choice([[], [], [' xmlns="%s"' % MML], [' display="block"'], [' alttext="x"', ' class="m"']])]
    r.shuffle(at)
    t = m['t']
    if not t['k'] and not t['x'] and r.random() < .5:
        return '<math%s/>' % ''.join(at)
    return '<math%s>%s%s</math>' % (''.join(at), xg.esc(t['x']), ''.join(mtok(k) for k in t['k']))


def math_xhtml(r, group):
    """Formulae with one identifier: the children of the content annotation."""
    p = r.choice(['m:', 'm:', ''])
    ns = ' xmlns="%s"' % MML if p == '' else ''
    i = ' id="%s"' % xg.esca(group[0]['id']) if group[0]['id'] else ''
    cont = ''.join(mtok(m['t'], p) for m in group)
    extra = r.choice(['', '<%sannotation encoding="TeX">x^2</%sannotation>' % (p, p),
                      '<%sannotation-xml encoding="MathML-Presentation"><%smrow/></%sannotation-xml>' % (p, p, p)])
    ann = '<%sannotation-xml encoding="MathML-Content">%s</%sannotation-xml>' % (p, cont, p)
    parts = [extra, ann] if r.random() < .5 else [ann, extra]
    return '<%smath%s%s><%ssemantics><%smrow><%smi>x</%smi></%smrow>%s</%ssemantics></%smath>' % (
        p, ns, i, p, p, p, p, p, ''.join(parts), p, p)


def render(r, u, pg):
    """Fill in ctype and body of a page {links, math, kind}."""
    kind = pg['kind']
    xh = kind == 'xhtml'
    ls = [link_tag(r, href(r, u, x) if not x.get('none') else None, xh) for x in pg['links']]
    if xh:
        ms = [math_xhtml(r, list(g)) for _, g in itertools.groupby(pg['math'], key=lambda m: m['g'])]
        if r.random() < .2:
            ms.append('<m:math id="p"><m:mrow><m:mi>y</m:mi></m:mrow></m:math>')
    else:
        ms = [math_html(r, m) for m in pg['math']]
    items = [(k, 'l') for k in ls] + [(k, 'm') for k in ms]
    order = sorted(range(len(items)), key=lambda k: r.random())
    li, mi = iter(ls), iter(ms)          # both in their own order
    body = []
    for k in order:
        body.append(next(li) if items[k][1] == 'l' else next(mi))
        if r.random() < .2:
            body.append(r.choice(['<p>text</p>', '<!-- comment -->', '<div>é &amp; &lt;</div>', ' text ']))
    if xh:
        pg['ctype'] = r.choice(['application/xhtml+xml', 'application/xhtml+xml; charset=utf-8'])
        pg['body'] = ('<?xml version="1.0" encoding="UTF-8"?>\n<html xmlns="http://www.w3.org/1999/xhtml" xmlns:m="%s"><head><title>t</title></head>'
                      '<body>%s</body></html>' % (MML, ''.join(body)))
    else:
        pg['ctype'] = {'html': r.choice(['text/html', 'text/html; charset=utf-8']), 'other': r.choice(['text/plain', 'application/octet-stream'])}[kind]
        pg['body'] = '<!DOCTYPE html>\n<html><head><title>t</title></head><body>%s</body></html>' % '\n'.join(body)
    return pg


def site_event(h, s, port):
    pages = {}
    for k, pg in s['pages'].items():
        own = {'h': h, 'p': k.partition('?')[0], 'q': ''.join(k.partition('?')[1:])}
        pages[k] = {'links': [own if x.get('none') or x.get('self') else {'h': x['h'], 'p': x['p'], 'q': x['q']} for x in pg['links']],
                    'math': [{'id': m['id'], 't': m['t']} for m in pg['math']] if pg['kind'] != 'other' else []}
    return {'e': 'Site', 'h': h, 'port': str(port), 'pages': pages, 'robots': s.get('robots') or []}


# --------------------------------------------------------------------------
# submissions

def form(sub, port, r):
    """(content type, body) of a submission."""
    f = [('urlstart', sub['urlstart'])] if sub.get('urlstart') is not None else []
    if sub.get('cnt') is not None:
        f.append(('count', sub['cnt']))
    f += [('dontcrawl', d) for d in sub.get('dontraw', [])]
    f += [(k, v) for k, v in sub.get('more', [])]
    f = [(k, v.replace('@PORT@', str(port))) for k, v in f]
    if sub.get('shuffle'):
        r.shuffle(f)                     # the order among exclusions does not matter
    if sub.get('multipart'):
        b = 'XbOuNdArYx'
        return 'multipart/form-data; boundary=' + b, (''.join(
            '--%s\r\nContent-Disposition: form-data; name="%s"\r\n\r\n%s\r\n' % (b, k, v) for k, v in f) + '--%s--\r\n' % b).encode()
    return sub.get('ctype', 'application/x-www-form-urlencoded'), '&'.join('%s=%s' % (k, quote_plus(v)) for k, v in f).encode()


def what_page(body):
    if b'We sent the request' in body:
        return 'sent'
    if b"doesn't seem to be right" in body:
        return 'error'
    if b'<form' in body:
        return 'form'
    return 'other'


class Client:
    """One submission, step by step."""

    def __init__(self, run, sub):
        self.run, self.sub, self.c = run, sub, None
        ct, body = form(sub, run.site.port, util.rng('submit', json.dumps(sub, sort_keys=True)))
        head = '%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n' % (sub['m'], sub.get('url', '/'))
        if sub['m'] in ('POST', 'PUT'):
            if ct:
                head += 'Content-Type: %s\r\n' % ct
            head += 'Content-Length: %d\r\n' % len(body)
        else:
            body = b''
        cuts = sorted({k % (len(body) + 1) for k in sub.get('cuts', [])})
        if sub.get('pieces'):            # so many pieces, none empty, when there is enough to cut
            n, r = sub['pieces'], util.rng('pieces', json.dumps(sub, sort_keys=True))
            cuts = sorted(r.sample(range(1, len(body)), n - 1)) if len(body) > n else []
        self.frags = [body[a:b] for a, b in zip([0] + cuts, cuts + [len(body)])]
        if sub.get('abort'):             # break off before the last byte
            n = max(0, len(body) - 1)
            self.frags = [body[:1 + sub['abort'] % n]] if n else []
        self.head = (head + '\r\n').encode()

    def open(self):
        e = {k: self.sub[k] for k in ('m', 'starts', 'valid', 'u', 'count', 'dont')}
        e['e'] = 'Submit'
        with self.run.lock:
            self.run.ev.append(e)
            self.run.nsub += 1
            self.i = self.run.nsub
        try:
            self.c = socket.create_connection(('127.0.0.1', self.run.srv.port), 20)
            self.c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if not (self.sub.get('together') and self.frags):
                self.c.sendall(self.head)
                self.head = b''
        except OSError as x:
            self.fail(x)

    def fail(self, x):
        self.run.see({'e': 'Answer', 'i': self.i, 'm': self.sub['m'], 'status': 0, 'page': str(x)})
        self.c = None

    def send(self):
        if self.c is None:
            return False
        try:
            f = self.frags.pop(0) if self.frags else b''
            self.c.sendall(self.head + f)
            self.head = b''
        except OSError as x:
            self.fail(x)
            return False
        return True

    def leave(self):
        if self.c is not None:
            self.c.close()

    def read(self):
        if self.c is None:
            return
        try:
            st, _, b = read_response(self.c, self.sub['m'])
        except (OSError, ValueError, IndexError) as x:
            st, b = 0, str(x).encode()
        self.c.close()
        self.run.see({'e': 'Answer', 'i': self.i, 'm': self.sub['m'], 'status': st, 'page': what_page(b)})
        if st == 200 and what_page(b) == 'sent' and self.sub['valid']:
            with self.run.lock:
                self.run.expect[self.sub['u']['h']] += 1


class Run:
    def __init__(self, sc):
        self.sc, self.ev, self.lock = sc, [], threading.Lock()
        self.last = time.time()
        self.robots = collections.Counter()
        self.expect = collections.Counter()
        self.gets = 0

    def see(self, e):
        with self.lock:
            self.ev.append(e)
            self.last = time.time()
            if e['e'] == 'Get':
                self.gets += 1
                if e['p'] == '/robots.txt':
                    self.robots[e['h']] += 1

    def submit(self, sub):
        """Send one request in its pieces; record the sending and the answer."""
        c = Client(self, sub)
        c.open()
        while c.frags and c.send():
            time.sleep(sub.get('pause', .002))
        if sub.get('abort') or sub.get('leave'):
            time.sleep(.005 if sub.get('abort') else 0)
            c.leave()
        else:
            c.read()

    def play(self, hist, subs):
        """Play a history of the clients' moves, as the model printed it."""
        cs = {k: Client(self, v) for k, v in subs.items()}
        for k, a in hist:
            getattr(cs[k], a)()
            time.sleep(.004)

    def quiet(self, secs, limit):
        """Wait until nothing has happened for some time, and everything that was acknowledged has begun."""
        t = time.time()
        while time.time() - t < max(limit, self.sc.get('limit', 0)) and self.srv.alive() and self.gets < self.sc.get('maxgets', 20000):
            with self.lock:
                idle = time.time() - self.last
                short = any(self.robots[h] < n for h, n in self.expect.items())
            if idle > (limit if short else secs):
                return
            time.sleep(.05)

    def execute(self):
        sc = self.sc
        self.site = Site(sc['sites'], self.see)
        self.nsub = 0
        self.site.delay = sc.get('delay', 0)
        data = util.newdir('data')
        d = data
        opts = []
        if sc.get('dir'):
            d = os.path.join(data, sc['dir'])
            os.makedirs(d)
            opts = ['-d', sc['dir']]
        for h, s in sc['sites'].items():
            self.ev.append(site_event(h, s, self.site.port))
        env = {'REDIRECT_FROM': os.path.join(util.REPO, 'data'), 'REDIRECT_TO': data, 'LD_PRELOAD': shim(), 'no_proxy': '*'}
        if sc.get('perturb'):
            from .props import p11
            env.update(LD_PRELOAD=shim() + ':' + p11.shim(), PERTURB=str(sc['perturb']), PERTURB_US='100')
        port = free_port()
        self.srv = Server([search.find('crawlerd'), '-p', str(port)] + opts, port, env=env)
        self.ev.append(search.fact('service starts', self.srv.up, True))
        for step in sc['steps']:
            if not self.srv.alive():
                break
            if 'clients' in step:
                ts = [threading.Thread(target=lambda c=c: [self.submit(sc['subs'][i]) for i in c]) for c in step['clients']]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            elif 'play' in step:
                self.play(step['play'], {k: sc['subs'][i] for k, i in step['who'].items()})
            elif 'wait' in step:
                time.sleep(step['wait'])
            elif 'quiet' in step:
                self.last = time.time()
                self.quiet(1.4, 15)
        self.last = time.time()
        self.quiet(1.6, 25)
        with self.lock:
            self.ev.append({'e': 'Idle'})
        bad, exprs = read_harvests(d)
        self.ev.append({'e': 'Files', 'bad': bad, 'exprs': exprs})
        # nothing beside the data directory
        rest = sorted(os.path.relpath(p, data) for p in glob.glob(data + '/**', recursive=True) if os.path.isfile(p) and os.path.dirname(p) != d)
        self.ev.append(search.fact('files elsewhere', rest, []))
        self.ev.append(search.fact('service alive', self.srv.alive(), True))
        self.srv.kill()
        self.site.stop()
        return self.ev


def session(sc):
    return Run(sc).execute()


def shim():
    return util.build_native('redirect.so', 'redirect.c', ['-shared', '-fPIC', '-ldl'])


def read_harvests(d):
    """([malformed files], [{u, t}])"""
    bad, out = [], []
    for p in sorted(glob.glob(d + '/**', recursive=True)):
        if not os.path.isfile(p):
            continue
        try:
            out += read_harvest(open(p, 'rb').read())
        except Exception as x:
            bad.append('%s: %s' % (os.path.basename(p), x))
    return bad, out


def read_harvest(data):
    import xml.etree.ElementTree as ET
    root = ET.fromstring(data)                       # well-formed, prefixes bound
    if root.tag.rpartition('}')[2] != 'harvest':
        raise ValueError('root is ' + root.tag)
    out, st = [], []

    def start(n, a):
        e = {'t': n, 'a': a, 'x': '', 'k': []}
        if st:
            st[-1]['k'].append(e)
        else:
            out.append(e)
        st.append(e)

    def chars(x):
        st[-1]['x'] += x

    def end(n):
        st.pop()
    p = expat.ParserCreate('UTF-8')
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.Parse(data, True)
    res = []
    for e in out[0]['k']:
        if e['t'] != 'mws:expr' or len(e['k']) != 1:
            raise ValueError('harvest contains %s with %d children' % (e['t'], len(e['k'])))
        res.append({'u': e['a'].get('url', ''), 't': bare(e['k'][0])})
    return res


def bare(t):
    return {'t': t['t'], 'a': {}, 'x': t['x'], 'k': [bare(k) for k in t['k']]}
