"""Harvest streams: parse events, the XML that has them, XML errors."""
import json, re
from . import xmlgen as xg

ERRORS = {'mismatch': '</zzz>', 'entity': '&undefinedentity;', 'ctrl': '\x01', 'utf8': b'\xff\xfe', 'lt': '< ',
          'dupattr': '<q a="1" a="2">', 'unquoted': '<q a=1>', 'trunc': None, 'cdend': ']]>', 'charref': '&#0;',
          'doctype': '<!DOCTYPE x>', 'softentity': '&undefinedentity;', 'attlt': '<q a="<">', 'amp': ' & '}
AFTER = ['', '</cn></mws:expr>', '<mws:expr url="afterError"><cn>9</cn></mws:expr></mws:harvest>',
         '</x><cn>9</cn></mws:expr></mws:data><mws:expr url="afterError" mws:data_id="d"><ci>q</ci></mws:expr></mws:harvest>']


def S(n, **a):
    a = {k.replace('__', ':'): v for k, v in a.items()}
    return {'e': 'S', 'n': n, 'a': a, 'al': ['%s=%s' % (k, a[k]) for k in sorted(a)]}


def T(x):
    return {'e': 'T', 'x': x}


E = {'e': 'E'}
X = {'e': 'X'}


def render(events, r, err=None, noise=.1):
    """Bytes whose parse events are the given ones (an X becomes one of many errors)."""
    out, stack = [], []
    soft = False
    err = err or r.choice(list(ERRORS))
    if err == 'softentity' and any(e['e'] == 'X' for e in events):
        soft = True
    out.append(r.choice(['', '<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="UTF-8"?>']))
    if soft:
        out.append('<!DOCTYPE mws:harvest SYSTEM "nowhere.dtd">')
    for ev in events:
        if ev['e'] == 'S':
            at = list(ev['a'].items())
            if len(at) > 1 and r.random() < .3:
                r.shuffle(at)
            q = r.choice(['"', "'"])
            out.append('<%s%s%s>' % (ev['n'], ''.join(
                ' %s=%s%s%s' % (k, q, xg.esca(v).replace("'", '&apos;'), q) for k, v in at),
                r.choice(['', ' ', '\n']) if r.random() < noise else ''))
            stack.append(ev['n'])
        elif ev['e'] == 'E':
            n = stack.pop()
            if out[-1].startswith('<' + n) and not out[-1].endswith('/>') and r.random() < .3:
                out[-1] = out[-1][:-1] + '/>'
            else:
                out.append('</%s%s>' % (n, ' ' if r.random() < noise else ''))
        elif ev['e'] == 'T':
            x = ev['x']
            c = r.random()
            if c < noise and ']]>' not in x:
                out.append('<![CDATA[' + x + ']]>')
            elif c < 2 * noise:
                i = r.randrange(len(x) + 1)
                out.append(xg.esc(x[:i]) + r.choice(['<!-- c -->', '<?pi x?>']) + xg.esc(x[i:]))
            elif c < 3 * noise:
                out.append(''.join('&#%d;' % ord(ch) if r.random() < .5 else xg.esc(ch) for ch in x))
            else:
                out.append(xg.esc(x))
        else:
            e = ERRORS[err]
            if e is not None:
                out.append(e)
                out.append(r.choice(AFTER))
            return b''.join(o if isinstance(o, bytes) else o.encode() for o in out)
        if r.random() < noise / 2:
            out.append(r.choice(['<!-- comment <mws:expr> -->', '<?php x?>']) if stack else '')
    if stack:
        if r.random() < .5:
            out.append(r.choice(['<!-- unfinished', '<mws:ex', '&#', '</', '']))
    elif r.random() < .08:
        return encoded(out, r)
    return b''.join(o if isinstance(o, bytes) else o.encode() for o in out)


def encoded(out, r):
    """The document in another character encoding."""
    enc = r.choice(['UTF-16', 'UTF-16', 'UTF-16LE', 'ISO-8859-1', 'US-ASCII', 'UTF-8-BOM'])
    text = ''.join(out[1:])
    if enc == 'UTF-8-BOM':
        return b'\xef\xbb\xbf' + ''.join(out).encode()
    head = '<?xml version="1.0" encoding="%s"?>' % enc
    if enc.startswith('UTF-16'):
        return (head + text).encode('utf-16')
    try:
        return (head + text).encode(enc)
    except UnicodeEncodeError:
        return (head.replace(enc, 'UTF-16') + text).encode('utf-16')


def personal(events, k):
    """The same stream with urls and texts that no other file has."""
    out = []
    for e in events:
        e = json.loads(json.dumps(e))
        if e['e'] == 'S':
            e['a'] = e['a'] or {}
            if 'url' in e['a']:
                e['a']['url'] = 'f%d/%s' % (k, e['a']['url'])
            e['al'] = ['%s=%s' % (n, e['a'][n]) for n in sorted(e['a'])]
        elif e['e'] == 'T':
            e['x'] = e['x'] + str(k)
        out.append(e)
    return out


def emitted(out):
    """The streams printed by HarvestMC."""
    for m in re.finditer(r'^"GEN (.*)"$', out, re.M):
        evs = json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
        for e in evs:
            if e['e'] == 'S' and e['a'] == []:
                e['a'] = {}
        yield evs


# ---------------------------------------------------------------------------
# random streams

TEXTS = ['doc', 'a b', 'x < y & z', '"q"', "it's", 'é∑', ' ', '1', ' two  spaces ', '𝔸', '\t', 'a\nb']


def term_events(t):
    ev = [{'e': 'S', 'n': t['t'], 'a': t['a'], 'al': ['%s=%s' % (k, t['a'][k]) for k in sorted(t['a'])]}]
    if t['x']:
        ev.append(T(t['x']))
    for c in t['k']:
        ev += term_events(c)
    return ev + [E]


def data_events(toks):
    ev, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.startswith('S:'):
            a = {}
            while i + 1 < len(toks) and toks[i + 1].startswith('A:'):
                k, v = toks[i + 1][2:].split('=', 1)
                a[k] = v
                i += 1
            ev.append({'e': 'S', 'n': t[2:], 'a': a, 'al': ['%s=%s' % (k, a[k]) for k in sorted(a)]})
        elif t.startswith('T:'):
            ev.append(T(t[2:]))
        else:
            ev.append(E)
        i += 1
    return ev


def random_stream(r, fi, pool, n):
    ev = []
    root = r.choice(['mws:harvest'] * 12 + ['harvest', 'foo', 'mws:expr'])
    ev.append(S(root, **({'xmlns__mws': 'http://search.mathweb.org/ns'} if r.random() < .7 else {})))
    ids = ['d1', 'd2', '7', 'x y', 'é', '&amp', '']
    for i in range(r.randint(0, n)):
        c = r.random()
        if c < .3:
            a = {}
            if r.random() < .9:
                a['mws__data_id'] = r.choice(ids)
            if r.random() < .1:
                a[r.choice(['data_id', 'url', 'id'])] = r.choice(ids)
            ev.append(S('mws:data', **a))
            if r.random() < .05:
                ev.append(T('x' * r.choice([3990, 4000, 4096, 9000]) + '∑é' * 20))
            else:
                ev += data_events(xg.rdata(r, 2, TEXTS[:-1]))
            if r.random() < .1:
                ev += [S('mws:expr', url='inData'), S('cn'), T('1'), E, E]
            ev.append(E)
        elif c < .75:
            a = {}
            if r.random() < .9:
                a['url'] = 'f%d/u%d%s' % (fi, i, r.choice(['', '', '#a&b<">', ' é', "'"]))
            if r.random() < .6:
                a['mws__data_id'] = r.choice(ids)
            if r.random() < .1:
                a[r.choice(['data_id', 'xml__id', 'uri'])] = r.choice(ids)
            ev.append(S('mws:expr', **a))
            for _ in range(r.choice([0, 1, 1, 1, 1, 1, 2, 3])):
                if r.random() < .15:
                    ev.append(T(r.choice([' ', 'junk', '\n'])))
                t = xg.noisy(r.choice(pool), r)
                ev += term_events(t)
            if r.random() < .04:
                ev += [S('cn'), T('7' * r.choice([3990, 4100, 8200])), E]
            ev.append(E)
        elif c < .85:
            ev.append(S(r.choice(['foo', 'expr', 'mws:harvest', 'data', 'mws:Expr', 'm:math'])))
            for _ in range(r.randint(0, 2)):
                ev += r.choice([[T('junk')], [S('mws:expr', url='hidden'), S('cn'), T('1'), E, E],
                                [S('mws:data', mws__data_id='d1'), T('hidden'), E], [S('foo'), S('bar'), E, E]])
            ev.append(E)
        else:
            ev.append(T(r.choice(['\n', '  ', 'stray text'])))
    ev.append(E)
    if r.random() < .45:                          # stop somewhere
        k = r.randrange(len(ev) + 1)
        ev = ev[:k] + [X] if k else [X]
    return ev
