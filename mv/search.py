"""Executing search scenarios on the real mwsd / mws-index and recording what they answer."""
import json, os, subprocess
from . import util, xmlgen as xg
from .server import Server, free_port, http, parse_json_answer, parse_ids_answer, parse_xml_answer

BIG = 200000


def bindir():
    return util.build(['mwsd', 'mws-index'])


_bins = None


def bins():
    global _bins
    if _bins is None:
        _bins = bindir()
    return _bins


def write_harvests(d, files):
    for i, f in enumerate(files):
        p = os.path.join(d, f.get('name', 'h%02d.harvest' % i))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        xml = f['xml'] if 'xml' in f else xg.harvest_xml(f['items'])
        with open(p, 'wb') as o:
            o.write(xml if isinstance(xml, bytes) else xml.encode('utf-8', 'surrogateescape'))


def streams(files):
    return [({'items': f['items']} if 'items' in f else {'events': f['events']}) for f in files if not f.get('skip')]


def index_event(n, sc):
    return {'e': 'Index', 'n': n, 'ren': sc.get('ren', False), 'data': sc.get('data', True), 'streams': streams(sc['files'])}


def mwsd_argv(*args):
    port = free_port()
    return [os.path.join(bins(), 'bin', 'mwsd') if os.path.exists(os.path.join(bins(), 'bin', 'mwsd')) else find('mwsd'),
            '-p', str(port)] + list(args), port


_found = {}


def need(*names):
    """Build further programs."""
    global _bins
    _bins = util.build(['mwsd', 'mws-index'] + list(names))


def find(name):
    if name not in _found:
        for root, _, fs in os.walk(bins()):
            if name in fs and os.access(os.path.join(root, name), os.X_OK):
                _found[name] = os.path.join(root, name)
                break
        else:
            raise util.CheckError('no binary ' + name)
    return _found[name]


def start_mwsd(*args, wait=30, env=None, popen=None):
    for _ in range(3):                       # somebody else may have taken the port
        argv, port = mwsd_argv(*args)
        s = Server(argv, port, wait=wait, env=env, popen=popen)
        if s.up or 'address already in use' not in s.log().lower():
            return s
        s.kill()
    return s


def mws_index(hdir, idir, *args, env=None, timeout=120):
    try:
        r = subprocess.run([find('mws-index'), '-I', hdir, '-o', idir] + list(args), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})),
                           cwd=util.scratch())
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return -999, 'timeout'


def fact(what, got, want):
    return {'e': 'Fact', 'what': what, 'got': got, 'want': want}


def post(srv, xml, **kw):
    return http(srv.port, 'POST', '/', xml, **kw)


def ask_attrs(size=None, off=None, output='json', extra=None):
    a = {}
    if output:
        a['output'] = output
    if size is not None:
        a['answsize'] = size
    if off is not None:
        a['limitmin'] = off
    a['totalreq'] = 'yes'
    a.update(extra or {})
    return a


def ask_event(srv, sname, n, query, cmp='full'):
    """Post one query in JSON form for everything; returns the Ask event."""
    q = query['q']
    st, hd, body = post(srv, xg.query_xml(q, ask_attrs(BIG, 0)))
    a = parse_json_answer(body) if st == 200 else {'total': -1, 'hits': [], 'qvars': [], 'bad': '%s %r' % (st, body[:200])}
    e = {'e': 'Ask', 'n': n, 's': sname, 'q': q, 'status': st, 'cmp': cmp}
    e.update(a)
    e['ctype'] = hd.get('content-type', '').split(';')[0]
    if 'id' in query:
        e['id'] = query['id']
    return e


def page_event(srv, sname, qid, q, off, size, extra=None):
    sends = dict(size=size, off=off)
    st, hd, body = post(srv, xg.query_xml(q, ask_attrs(size, off, extra=extra)))
    a = parse_json_answer(body) if st == 200 else {'total': -1, 'hits': [], 'qvars': [], 'bad': '%s %r' % (st, body[:200])}
    e = {'e': 'Page', 's': sname, 'id': qid, 'off': off or 0, 'size': 30 if size is None else min(size, 10**9),
         'status': st}
    e['off'] = min(e['off'], 10**9)
    e.update(a)
    return e


def xml_event(srv, sname, qid, q, off, size):
    st, hd, body = post(srv, xg.query_xml(q, ask_attrs(size, off, output='xml')))
    a = parse_xml_answer(body) if st == 200 else {'total': -1, 'size': -1, 'hits': [], 'bad': '%s %r' % (st, body[:200])}
    return {'e': 'Xml', 's': sname, 'id': qid, 'q': q, 'off': off, 'size': size, 'status': st, 'total': a['total'],
            'size1': a['size'], 'hits': a['hits'], 'bad': a['bad'], 'ctype': hd.get('content-type', '').split(';')[0]}


def ids_event(srv, n, q, off, size):
    st, hd, body = post(srv, xg.query_xml(q, ask_attrs(size, off, output='mws-ids')))
    a = parse_ids_answer(body) if st == 200 else {'total': -1, 'size': -1, 'ids': [], 'qvars': [], 'bad': '%s %r' % (st, body[:200])}
    return {'e': 'Ids', 'n': n, 'q': q, 'off': off, 'size': size, 'status': st, 'total': a['total'],
            'size1': a['size'], 'ids': a['ids'], 'qvars': a['qvars'], 'bad': a['bad'], 'ctype': hd.get('content-type', '').split(';')[0]}


def mode_args(sc, hdir):
    a = []
    if sc.get('ren'):
        a.append('-c')
    if sc.get('data', True) is False:
        a.append('-n')
    if sc.get('recursive'):
        a.append('-r')
    if sc.get('ext'):
        a += ['-e', sc['ext']]
    return a


def ask_session(sc):
    """Harvests -> server (memory and/or disk, default and/or experimental engine) -> questions."""
    d = util.newdir('s')
    hdir = os.path.join(d, 'h')
    os.mkdir(hdir)
    write_harvests(hdir, sc['files'])
    ev = [index_event('A', sc)]
    for mode in sc.get('modes', ['mem']):
        n = 'A'
        if mode == 'mem':
            srv = start_mwsd('-I', hdir, *mode_args(sc, hdir))
        else:
            idir = os.path.join(d, 'i')
            if not os.path.exists(idir):
                rc, out = mws_index(hdir, idir, *[a for a in mode_args(sc, hdir) if a != '-n'])
                ev.append({'e': 'Built', 'n': 'A', 'rc': rc})
                if rc:
                    continue
            if not os.path.exists(os.path.join(idir, 'index.memsector')):
                continue
            a = ['-D', idir] + (['-c'] if sc.get('ren') else []) + (['-x'] if mode.startswith('x') else [])
            srv = start_mwsd(*a)
        ev.append(fact('server starts (%s)' % mode, srv.up, True))
        if not srv.up:
            srv.kill()
            continue
        for q in sc['queries']:
            e = ask_event(srv, mode, n, q, sc.get('cmp', 'full'))
            ev.append(e)
            for off, size in q.get('pages', ()):
                ev.append(page_event(srv, mode, q['id'], q['q'], off, size))
            for off, size in q.get('xml', ()):
                ev.append(xml_event(srv, mode, q['id'], q['q'], off, size))
            for off, size in q.get('ids', ()):
                ev.append(ids_event(srv, n, q['q'], off, size))
            if not srv.alive():
                break
        ev.append(fact('server alive after the questions (%s)' % mode, srv.alive(), True))
        if sc.get('stop', True) and srv.alive():
            ev.append(fact('exit code after SIGTERM (%s)' % mode, srv.stop(), 0))
        else:
            srv.kill()
    return ev
