"""Random sites, robots files and crawl requests."""
from . import crawl, xmlgen as xg

PATHS = ['/', '/a', '/b', '/ab', '/a/b', '/a/b/c.html', '/a/', '/x/y/z', '/x/y', '/index.html', '/p.php', '/q/r', '/d/e/f/g', '/a.b', '/A', '/x_y-z~1', '/c;v', '/e/', '/e/1', '/e/2']
QUERIES = ['', '', '', '', '?', '?a=1', '?a=2', '?a=1&b=2', '?x', '?a/b', '?q=x&lt=1']
MTAGS = ['apply', 'plus', 'times', 'eq', 'ci', 'cn', 'csymbol', 'set', 'list', 'interval', 'bvar', 'lambda']


def hosts(r, n):
    out = set()
    if r.random() < .5:                   # names that resemble one another
        while len(out) < n:
            k = r.randint(1, 99)
            out |= set(r.sample([x % k for x in ('s%d.localhost', 'www.s%d.localhost', 'as%d.localhost', 's%d.b.localhost', 'b.s%d.localhost',
                                                 's%d0.localhost', 's%d.localhost.localhost', 'www.www.s%d.localhost')], 3))
    while len(out) < n:
        out.add('127.%d.%d.%d' % (r.randint(1, 250), r.randint(0, 250), r.randint(1, 250)))
    return r.sample(sorted(out), n)


def key(u):
    return u['p'] + u['q']


def mterm(r, d=2):
    if d == 0 or r.random() < .3:
        return xg.tok(*r.choice([('ci', 'x'), ('ci', 'y'), ('ci', 'é'), ('cn', '1'), ('cn', '2.5'), ('csymbol', 'a<b&c'), ('ci', '"q"')]))
    return xg.tok('apply', '', [xg.tok(r.choice(['plus', 'times', 'eq']))] + [mterm(r, d - 1) for _ in range(r.randint(1, 2))])


IDS = ['m1', 'm2', 'p1.e2', 'S1.E1.m1', 'x_y', 'é', 'a&b', "a'b", '', '', 'a<b', 'x" y']


def math(r, kind, nmax=3):
    out = []
    for g in range(r.randint(0, nmax)):
        i = r.choice(IDS)
        if kind == 'xhtml':
            for _ in range(r.choice([1, 1, 1, 2])):
                out.append({'id': i, 'g': g, 't': mterm(r)})
        else:
            c = r.random()
            t = xg.tok('math', r.choice(['', '', 'z']) if c < .1 else '', [] if c < .1 else [mterm(r) for _ in range(r.choice([1, 1, 2]))])
            out.append({'id': i, 'g': g, 't': t})
    return out


def site(r, host, others, npages, mathp=.3, deadp=.1, queries=True, kinds=('html', 'html', 'xhtml', 'other')):
    us = []
    while len(us) < npages:
        u = {'h': host, 'p': r.choice(PATHS), 'q': r.choice(QUERIES) if queries else ''}
        if u['q'] == '?':
            u['q'] = ''
        if u not in us:
            us.append(u)
    pages = {}
    near = [o for o in others if o != host and not o[0].isdigit() and (o in host or host in o)]
    for u in us:
        links = []
        if near and r.random() < .5:
            links.append({'h': r.choice(near), 'p': r.choice(PATHS), 'q': ''})
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            c = r.random()
            if c < .75:
                links.append(r.choice(us))
            elif c < .8 and links:
                links.append(r.choice(links))
            elif c < .86 and others:
                links.append({'h': r.choice(near or others), 'p': r.choice(PATHS), 'q': ''})
            elif c < .9:
                links.append({'h': host, 'p': '/dead%d' % r.randint(0, 2), 'q': ''})
            elif c < .95:
                raw = r.choice(['mailto:a@b.c', 'javascript:void(0)', 'http://localhost:@PORT@/', 'data:text/html,x', 'http:// bad host/'])
                links.append({'h': raw, 'p': '', 'q': '', 'raw': raw})
            else:
                links.append({'none': True, 'h': host, 'p': '', 'q': ''} if r.random() < .5 else {'self': True, 'raw': r.choice(['', '#', '#top']), 'h': host, 'p': '', 'q': ''})
        kind = r.choice(kinds)
        pg = {'kind': kind, 'links': links, 'math': math(r, kind) if r.random() < mathp else []}
        crawl.render(r, u, pg)
        c = r.random()
        if c < deadp:
            pg = {'kind': 'other', 'links': [], 'math': [], 'ctype': 'text/html', 'body': r.choice(['', 'dead', 'x' * 5000]),
                  'how': r.choice(['ok', 'close', 'trunc']), 'status': r.choice([200, 404, 500, 403])}
        elif c < deadp + .04:
            pg = {'kind': 'other', 'links': [], 'math': [], 'ctype': 'text/html', 'body': '', 'how': 'ok', 'status': r.choice([301, 302]),
                  'headers': {'Location': r.choice(['/a', 'http://%s:@PORT@/b' % host])}}
        pages[key(u)] = pg
    return us, {'pages': pages, 'robots': None}


def robots(r, us):
    """Lines of a robots file; rules are prefixes of pages of the site, of nothing, and near misses."""
    def prefix():
        u = r.choice(us)
        k = u['p'] + u['q']
        c = r.random()
        if c < .4:
            p = k[:r.randint(1, len(k))]
        elif c < .6:
            p = u['p']
        elif c < .7:
            p = u['p'].rstrip('/') + '/'
        elif c < .8:
            p = k + r.choice(['x', '/', '?z'])
        else:
            p = r.choice(['/nothing', '/a/b/c', '/robots', '/e'])
        # whether a directory's prefix covers the directory without the slash is left open
        return p if p != '/' or r.random() < .2 else '/a'
    lines = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        agents = r.choice([['*'], ['*'], ['*'], ['bot'], ['bot', '*'], ['*', 'bot'], ['a', 'b'], ['*bot'], ['bot*']])
        for a in agents:
            lines.append(r.choice(['User-agent: ', 'User-agent: ', 'user-agent:', 'User-Agent:  ', 'USER-AGENT: ']) + a + r.choice(['', '', ' ', ' # who']))
            if r.random() < .1:
                lines.append('# comment')
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            c = r.random()
            lines.append(r.choice(['Disallow: ', 'Disallow: ', 'disallow:', 'Disallow:   ']) + prefix() + r.choice(['', '', ' ', ' # not this'])
                         if c < .7 else r.choice(['Disallow:', 'Disallow: ', 'Allow: /', 'Crawl-delay: 3', '# Disallow: /', 'Noindex: /', 'Disallow', ' ', '', 'Disallow /a']))
        if r.random() < .5:
            lines.append('')
    if lines and r.random() < .2:            # long files, long lines
        at = r.randint(0, len(lines))
        kind = r.choice(['# %d', '# %d', 'Disallow: /none/%d', 'User-agent: bot%d', 'Sitemap: http://x/%d', ''])
        lines[at:at] = [kind % k if kind else '' for k in range(r.choice([12, 40, 140]))]
    if lines and r.random() < .15:
        lines.insert(r.randint(0, len(lines)), r.choice(['# ', 'Disallow: /none/', 'User-agent: ', 'x']) + 'long ' * r.choice([30, 60, 220]))
    if r.random() < .2:
        lines.insert(0, r.choice(['# robots', 'Disallow: /', 'Sitemap: http://x/y', '']))
    return lines


def set_robots(r, s, lines):
    s['robots'] = lines
    s['robotspage'] = {'ctype': 'text/plain', 'body': r.choice(['\n', '\n', '\r\n']).join(lines) + r.choice(['', '\n'])}


def no_robots(r, s):
    s['robots'] = []
    s['robotspage'] = r.choice([None, None, {'ctype': 'text/html', 'body': '', 'how': 'close'}, {'ctype': 'text/plain', 'body': ''},
                                {'ctype': 'text/html', 'body': '<html><a href="/a">x</a></html>', 'status': 404}])


def submission(r, start, us, countp=.3, dontp=.3, cuts=.3):
    s = {'m': 'POST', 'starts': True, 'valid': True, 'u': start, 'count': -1, 'dont': [], 'urlstart': crawl.url(start)}
    if r.random() < .1:
        s['urlstart'] += '#frag'
    if start['p'] == '/' and start['q'] == '' and r.random() < .3:
        s['urlstart'] = s['urlstart'].rstrip('/')
    if r.random() < countp:
        n = r.choice([1, 1, 2, 3, 5, 100])
        s['cnt'], s['count'] = str(n), n
    elif r.random() < .15:
        s['cnt'] = r.choice(['', '0', 'x'])
    if r.random() < dontp:
        raw = []
        for _ in range(r.choice([1, 1, 2, 4])):
            u = r.choice(us)
            c = r.random()
            if c < .6:
                v = (u['p'] + u['q'])[:r.randint(2, 40)]
                if v == '/':
                    v = '/a'
                raw.append(v)
                s['dont'].append({'h': start['h'], 'v': v})
            elif c < .8:
                raw.append(crawl.url(dict(u, h=start['h'])))
                s['dont'].append({'h': start['h'], 'v': u['p'] + u['q']})
            elif c < .9:
                raw.append('http://elsewhere.invalid' + u['p'])
                s['dont'].append({'h': 'elsewhere.invalid', 'v': u['p']})
            else:
                raw.append(r.choice(['', 'nothing/here', '/' + 'long' * 60]))
                if raw[-1]:
                    s['dont'].append({'h': start['h'], 'v': '/' + raw[-1].lstrip('/')})
        if r.random() < .25:               # lost among places that do not exist
            for k in range(r.choice([3, 14, 30, 90])):
                raw.insert(r.randint(0, len(raw)), '/none/%d' % k)
                s['dont'].append({'h': start['h'], 'v': '/none/%d' % k})
        s['dontraw'] = raw
    if r.random() < cuts:
        s['cuts'] = [r.randrange(10 ** 6) for _ in range(r.choice([1, 2, 5]))]
        s['pause'] = r.choice([.001, .004])
    s['multipart'] = r.random() < .15
    s['together'] = r.random() < .4
    s['shuffle'] = r.random() < .4
    return s


def useless(r):
    """Requests that start nothing."""
    s = {'m': 'POST', 'starts': False, 'valid': False, 'u': {'h': 'none', 'p': '', 'q': ''}, 'count': -1, 'dont': []}
    c = r.random()
    if c < .35:
        s['m'] = r.choice(['GET', 'PUT', 'GET', 'DELETE', 'HEAD', 'OPTIONS'])
    elif c < .5:
        s['more'] = [('count', '3'), ('foo', 'bar')]
    elif c < .6:
        s['urlstart'] = ''
        s['dontraw'] = ['/a']
    elif c < .7:
        s['ctype'] = r.choice(['text/plain', '', 'application/json'])
        s['more'] = [('urlstart', 'http://127.9.9.9:@PORT@/')]
    elif c < .85:
        s.update(starts=True, urlstart=r.choice(['foo', 'http://', ':::', '/a/b', 'bar baz']), dontraw=r.choice([[], ['/x'], ['/x', '/y']]))
    else:
        s['more'] = [('Urlstart', 'http://127.9.9.9:@PORT@/'), ('urlstar', 'x')]
    return s


def scenario(r, ncrawls, npages, robotsp=.3, countp=.3, dontp=.3, mathp=.3, uselessp=.1, cuts=.3, groups=.3, kinds=('html', 'html', 'xhtml', 'other'), deadp=.1, **kw):
    hs = hosts(r, ncrawls)
    sites, subs = {}, []
    for h in hs:
        us, s = site(r, h, hs, r.choice(npages), mathp=mathp, kinds=kinds, deadp=deadp)
        if r.random() < robotsp:
            set_robots(r, s, robots(r, us))
        else:
            no_robots(r, s)
        sites[h] = s
        subs.append(submission(r, us[0] if r.random() < .8 else r.choice(us), us, countp, dontp, cuts))
        while r.random() < uselessp:
            subs.append(useless(r))
    steps, i = [], 0
    while i < len(subs):
        if r.random() < groups:
            k = r.choice([2, 3, 5, 8])
            ids = list(range(i, min(len(subs), i + k)))
            cl = [[] for _ in range(r.choice([2, 3, 4]))]
            for x in ids:
                r.choice(cl).append(x)
            steps.append({'clients': cl})
            i += len(ids)
        else:
            steps.append({'clients': [[i]]})
            i += 1
        if r.random() < .03:
            steps.append({'wait': r.choice([.1, 1.1])})
    return dict({'sites': sites, 'subs': subs, 'steps': steps}, **kw)
