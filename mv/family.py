"""Large indexes given by a rule (spec/Family.tla)."""
import os, subprocess
from . import util, search, xmlgen as xg


def fill(t, c):
    return dict(t, x=t['x'].replace('@', str(c)).replace('&', str(c % 10)), k=[fill(k, c) for k in t['k']])


def write(path, f):
    with open(path, 'w') as o:
        head, tail = xg.harvest_xml([]).decode() if isinstance(xg.harvest_xml([]), bytes) else xg.harvest_xml([]), '</mws:harvest>'
        assert head.rstrip().endswith(tail), head
        o.write(head.rstrip()[:-len(tail)])
        for d in range(f['docs']):
            o.write('<mws:data mws:data_id="d%d">doc%d</mws:data>\n' % (d, d))
        P = f['period']
        xml = [xg.to_xml(fill(f['t'], c)) for c in range(P)]
        for i in range(1, f['count'] + 1):
            o.write('<mws:expr url="u%d"%s>%s</mws:expr>\n' % (
                i, ' mws:data_id="d%d"' % (i % f['docs']) if f['docs'] else '', xml[i % P] if P else xg.to_xml(fill(f['t'], i))))
        o.write(tail)


def ask(srv, sname, f, ren, q, off, size):
    e = search.page_event(srv, sname, q['id'], q['q'], off, size)
    e['e'] = 'AskFamily'
    e.update(q=q['q'], family=f, ren=ren)
    e['len'] = len(e['hits'])
    e['hits'] = [[int(u[1:]) if u[:1] == 'u' and u[1:].isdigit() else -1, p, d] for u, p, d in e['hits'][:300]]
    return e


def session(sc):
    d = util.newdir('f')
    hdir, idir = os.path.join(d, 'h'), os.path.join(d, 'i')
    os.mkdir(hdir)
    f = sc['family']
    write(os.path.join(hdir, 'a.harvest'), f)
    opt = ['-c'] if sc.get('ren') else []
    ev = []
    for mode in sc['modes']:
        if mode == 'mem':
            srv = search.start_mwsd('-I', hdir, *opt, wait=120)
        else:
            if not os.path.exists(idir):
                rc, _ = search.mws_index(hdir, idir, *opt)
                ev.append(search.fact('exit code of mws-index', rc, 0))
            srv = search.start_mwsd('-D', idir, *opt, *(['-x'] if mode == 'x' else []), wait=120)
        ev.append(search.fact('server starts (%s)' % mode, srv.up, True))
        if srv.up:
            for q in sc['queries']:
                for off, size in q['pages']:
                    ev.append(ask(srv, mode, f, bool(sc.get('ren')), q, off, size))
        ev.append(search.fact('server alive (%s)' % mode, srv.alive(), True))
        ev.append(search.fact('exit code after SIGTERM (%s)' % mode, srv.stop() if srv.alive() else -1, 0))
        srv.kill()
    return ev


MC = '''SPECIFICATION Spec
CONSTANTS NoBound=NoBound Texts={%s} QTexts={%s} Counts={%s} Periods={0,3,10}
INVARIANT ClassesTell
'''


def model(rep):
    """The classes of Family.tla tell what listing would tell."""
    a = ('"a@","@","b&"', '"?x","a12","2"', '9,25') if not util.THOROUGH else ('"a@","@","b&","c"', '"?x","a12","a2","12","b2","c"', '1,9,10,25,33')
    util.mc(rep, 'FamilyMC', MC % a, unused=None, workers=8, timeout=850)


CAP = 100000


def ci(x):
    return xg.tok('ci', x)


def pages(r, n, few=False):
    """Pages of a list of about n hits."""
    n = min(n, CAP)
    out = [(None, None), (0, 3), (max(0, n - 3), 3), (max(0, n - 2), 10), (n, 2), (n + 1, 1), (0, 150)]
    for _ in range(2 if few else 8):
        o = r.randint(0, max(0, n - 1))
        s = r.choice([1, 2, 30, 100])
        out += [(o, s), (max(0, o - s // 2), s), (o + s, s)]
    return out


def at_the_cap(seed):
    """About as many hits as are counted at most."""
    r = util.rng('family cap', seed)
    p = r.choice([1, 2, 3, 7])
    n = r.choice([CAP - 1, CAP, CAP + 1, CAP + r.randint(2, 50000), CAP * p // max(1, p - 1) + r.randint(-1, 1)])
    f = {'count': n, 'period': p, 'docs': r.choice([0, 0, 3]), 't': r.choice([ci('s@'), ci('s@'), xg.tok('f', '', [ci('s@')])])}
    qs = [{'id': 'all', 'q': xg.qvar(''), 'pages': pages(r, n)}]
    for k in range(2):
        q = ci('s%d' % r.randrange(p)) if f['t']['t'] == 'ci' else xg.tok('f', '', [r.choice([xg.qvar('x'), ci('s0')])])
        qs.append({'id': 'q%d' % k, 'q': q, 'pages': pages(r, r.choice([n, n // p]))})
    return {'family': f, 'modes': [['mem', 'disk', 'x'][seed % 3]], 'queries': qs}


def many_symbols(seed, n, modes, ren=False, docs=None):
    r = util.rng('family symbols', seed, n)
    f = {'count': n, 'period': 0, 'docs': r.choice([0, 3]) if docs is None else docs, 't': r.choice([
        xg.tok('f', '', [ci('s@'), ci('k&')]), xg.tok('f', '', [ci('k&'), ci('s@')]), xg.tok('f', '', [ci('s@'), ci('s@')])])
        if n < 10000 else ci('s@')}
    qs = []
    for k, c in enumerate([1, n, n - 1, 255, 256, 257, 65535, 65536, 65537, n + 1] + [r.randint(1, n) for _ in range(6)]):
        t = fill(f['t'], c)
        if t['k'] and r.random() < .6:
            t['k'][r.randrange(2)] = xg.qvar('x')
        qs.append({'id': 'q%d' % k, 'q': t, 'pages': [(0, 100), (5, 20)]})
    qs.append({'id': 'all', 'q': xg.qvar('x'), 'pages': pages(r, n, True)})
    if f['t']['k']:
        qs.append({'id': 'two', 'q': xg.tok('f', '', [xg.qvar('x'), xg.qvar('x')]), 'pages': pages(r, n, True)})
    return {'family': f, 'modes': modes, 'queries': qs, 'ren': ren}


def many_documents(seed, n, modes):
    """One document for each expression, or nearly; few formulae."""
    r = util.rng('family documents', seed, n)
    p = r.choice([1, 3, 7])
    count = n + r.choice([0, 1, 5])
    f = {'count': count, 'period': p, 'docs': n, 't': r.choice([ci('s@'), xg.tok('f', '', [ci('s@'), ci('s@')])])}
    qs = [{'id': 'q%d' % k, 'q': fill(f['t'], k), 'pages': [(0, 50)] + [(b, 30) for b in (250, 32760, 65530) if b < count // p] + pages(r, count // p, True)}
          for k in range(min(p, 2))]
    return {'family': f, 'modes': modes, 'queries': qs}
