"""P10: every HTTP request gets exactly one right response and the server survives it."""
import json, os, re, signal
from .. import util, gen, search, httpx, streams, trace, xmlgen as xg


def prepare(sc):
    d = util.newdir('s')
    hdir = os.path.join(d, 'h')
    os.mkdir(hdir)
    search.write_harvests(hdir, sc['files'])
    ev = [search.index_event('A', sc)]
    opt = ['-c'] if sc.get('ren') else []
    if sc['mode'] == 'mem':
        srv = search.start_mwsd('-I', hdir, *opt)
    else:
        idir = os.path.join(d, 'i')
        rc, _ = search.mws_index(hdir, idir, *opt)
        ev.append({'e': 'Built', 'n': 'A', 'rc': rc})
        srv = search.start_mwsd('-D', idir, *(opt + (['-x'] if sc['mode'] == 'x' else [])))
    ev.append(search.fact('server starts', srv.up, True))
    return ev, srv


def finish(ev, srv, sc):
    ev.append(search.fact('server alive', srv.alive(), True))
    # libmicrohttpd 1.0.0 itself crashes when it answers a malformed request while MHD_stop_daemon runs (its
    # transmit_error_response uses the response that MHD_queue_response drops then): let it finish with those first
    srv.settle()
    if srv.alive():
        ev.append(search.fact('exit code after a termination signal', srv.stop(getattr(signal, sc.get('sig', 'SIGTERM'))), 0))
    srv.kill()
    return ev


def session(sc):
    ev, srv = prepare(sc)
    if not srv.up:
        srv.kill()
        return ev
    for st in sc['steps']:
        if st['k'] == 'one':
            ev.append(httpx.req_event(st['rq'], 's', 'A', httpx.exchange(srv.port, st['rq'])))
        elif st['k'] == 'schedule':
            ev += httpx.play(srv.port, st['schedule'], st['reqs'], 's', 'A')
        elif st['k'] == 'keep':
            ev += httpx.keepalive(srv.port, st['reqs'], 's', 'A', st['pipelined'])
        elif st['k'] == 'junk':
            try:
                c = httpx.Conn(srv.port)
                c.send(st['bytes'].encode('latin-1'))
                c.abort(st['reset'])
            except OSError:
                pass
        if not srv.alive():
            break
    return finish(ev, srv, sc)


def base(r, n=6):
    pool = gen.related_terms(r, n, 2, 12)
    files = [{'items': [{'i': 'data', 'id': '1', 'toks': ['T:doc']}] +
              [{'i': 'expr', 'url': 'u%d' % i, 'id': r.choice(['1', '']), 'terms': [t]} for i, t in enumerate(pool)]}]
    return files, pool


JUNK = ['', 'G', 'GET', 'GET / HTTP/1.1\r\n', 'POST / HTTP/1.1\r\nContent-Length: 100\r\n\r\nabc', '\x00\x01\x02\x03\r\n\r\n',
        'POST / HTTP/1.1\r\nContent-Length: -5\r\n\r\n', 'POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n',
        'POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\nabc', 'GET / HTTP/9.9\r\n\r\n',
        'POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 99999999999999999999\r\n\r\nabc', 'A' * 70000, 'GET /' + 'a' * 40000 + ' HTTP/1.1\r\n\r\n',
        'POST / HTTP/1.1\r\n' + 'X: y\r\n' * 5000, 'POST / HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 10\r\n\r\n',
        'OPTIONS * HTTP/1.1\r\n\r\n', 'POST / HTTP/1.0\r\n\r\n', 'GET / HTTP/1.1\r\nHost: x\r\n\r\nGET / HTT']


def scenario(seed, schedules):
    r = util.rng('P10', seed)
    files, pool = base(r)
    steps = []
    for _ in range(r.randint(8, 20)):
        c = r.random()
        if c < .5:
            steps.append({'k': 'one', 'rq': httpx.random_request(r, pool)})
        elif c < .75:
            sch = r.choice(schedules)
            reqs = {}
            for c in sorted({x for x, _ in sch}):
                rq = httpx.random_request(r, pool, 0)
                rq['cuts'] = [r.randrange(10 ** 6)]
                rq['reset'] = r.random() < .4
                rq['m'] = 'POST' if r.random() < .8 else rq['m']
                reqs[c] = rq
            steps.append({'k': 'schedule', 'schedule': sch, 'reqs': reqs})
        elif c < .88:
            reqs = []
            for _ in range(r.randint(2, 5)):
                rq = httpx.random_request(r, pool, 0)
                if rq['m'] not in ('POST', 'GET', 'OPTIONS'):
                    rq['m'] = 'POST'
                reqs.append(rq)
            steps.append({'k': 'keep', 'reqs': reqs, 'pipelined': r.random() < .4})
        else:
            steps.append({'k': 'junk', 'bytes': r.choice(JUNK), 'reset': r.random() < .5})
    return {'files': files, 'mode': r.choice(['mem', 'disk', 'mem', 'x']), 'steps': steps, 'ren': r.random() < .3, 'sig': r.choice(['SIGTERM', 'SIGINT'])}


def mc_queries(rep, n, names, r):
    res = util.mc(rep, 'QueryMC', '''SPECIFICATION Spec
CONSTANTS NoBound=NoBound N=%d Tags={%s}
INVARIANTS MachineMeansDocument Emit
''' % (n, ','.join('"%s"' % x for x in names)))
    docs = list(streams.emitted(res.out))
    rep.add('documents_generated', len(docs))
    files = [{'items': [{'i': 'expr', 'url': 'u0', 'id': '', 'terms': [xg.tok('ci', 'x', [xg.tok('foo')])]},
                        {'i': 'expr', 'url': 'u1', 'id': '', 'terms': [xg.tok('ci', 'x')]},
                        {'i': 'expr', 'url': 'u2', 'id': '', 'terms': [xg.tok('mws:expr', '', [xg.tok('ci', '')])]}]}]
    out = []
    for i in range(0, len(docs), 700):
        steps = []
        for ev in docs[i:i + 700]:
            for e in ev:
                if e['e'] == 'S':
                    e['al'] = []
            steps.append({'k': 'one', 'rq': {'m': 'POST', 'url': '/', 'events': ev, 'chunked': False, 'together': True,
                                             'body': streams.render(ev, r, noise=.03).decode('latin-1')}})
        out.append({'files': files, 'mode': ['mem', 'disk'][i // 700 % 2], 'steps': steps})
    return out


def mc_connections(rep):
    """Schedules of two connections; the model refutes shared and reused buffers."""
    cfg = '''SPECIFICATION Spec
CONSTANTS Conns={%s} Frags=%d Buffers="%s" Emit=%s
INVARIANTS AnsweredByOwnBody EmitSchedule
%s
'''
    res = util.mc(rep, 'ConnMC', cfg % ('"c1","c2"', 2, 'own', 'TRUE', 'PROPERTY EverybodyAnswered'), workers=2)
    util.mc(rep, 'ConnMC', cfg % ('"c1","c2","c3"', 2, 'own', 'FALSE', ''))
    for b in ('shared', 'kept'):
        util.refuted(rep, 'ConnMC', cfg % ('"c1","c2"', 1, b, 'FALSE', ''), b + ' buffers')
    return util.generated(res.out)


def run():
    rep = util.Report('P10', 'model_checking')
    search.bins()
    r = util.rng('P10 docs')
    schedules = mc_connections(rep)
    S = [trace.Session(sc, session, 'P10 documents part %d' % i) for i, sc in enumerate(
        mc_queries(rep, 9 if util.THOROUGH else 8, ['R', 'A', 'V', 'F'], r))]
    for i in range(1500 if util.THOROUGH else 240):
        S.append(trace.Session(scenario(i, schedules), session, 'P10 scenario %d' % i))
    # every schedule once
    for k in range(0, len(schedules), 24):
        q = util.rng('P10 schedules', k)
        files, pool = base(q)
        steps = []
        for sch in schedules[k:k + 24]:
            reqs = {}
            for c in ('c1', 'c2'):
                rq = httpx.random_request(q, pool, 0)
                rq.update(m='POST', nobody=False, cuts=[q.randrange(10 ** 6)], reset=q.random() < .4)
                reqs[c] = rq
            steps.append({'k': 'schedule', 'schedule': sch, 'reqs': reqs})
        S.append(trace.Session({'files': files, 'mode': 'mem', 'steps': steps}, session, 'P10 schedules %d' % k))
    rep.add('schedules_played', len(schedules))
    trace.check(rep, 'HttpTrace', S)
    return rep.finish()
