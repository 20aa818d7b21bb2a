"""P13: identifier renaming."""
from .. import util, gen, search, trace, xmlgen as xg

L = [('ci', c) for c in 'abcxyz'] + [('ci', 'ab'), ('ci', 'xyz'), ('cn', '1'), ('ci', ''), ('csymbol', 'f'), ('ci', '~1'), ('ci', '1')]
H = [('ci', 'f'), ('ci', 'g'), ('plus', ''), ('ci', 'x'), ('ci', 'sin'), ('csymbol', 'f')]


def renamed(t, perm):
    n = dict(t, k=[renamed(c, perm) for c in t['k']])
    # operators keep their names
    if n['t'] in ('apply', 'm:apply') and t['k']:
        o = t['k'][0]
        n['k'][0] = dict(o, k=n['k'][0]['k'])
    if n['t'] in ('ci', 'm:ci') and len(n['x'].strip()) == 1:
        n['x'] = n['x'].replace(n['x'].strip(), perm.get(n['x'].strip(), n['x'].strip()))
    return n


def scenario(seed):
    r = util.rng('P13', seed)
    files, pool = gen.harvest(r, 1, r.randint(3, 15), r.randint(1, 3), leaves=L, heads=H, datap=.1, noise=.1)
    letters = list('abcxyz')
    for f in files:                      # some expressions once more, consistently renamed
        for it in list(f['items']):
            if it['i'] == 'expr' and r.random() < .3:
                p = letters[:]
                r.shuffle(p)
                f['items'].append(dict(it, url=it['url'] + '/renamed', terms=[renamed(t, dict(zip(letters, p))) for t in it['terms']]))
    qs = []
    for _ in range(r.randint(12, 20)):
        c = r.random()
        if c < .5:
            q = r.choice(pool)
            if r.random() < .4:
                q = r.choice(xg.subterms(q))
        else:
            q = gen.question(r, pool, L, noise=0)
        qs.append({'q': xg.noisy(q, r, .1)})
        p = letters[:]
        r.shuffle(p)
        qs.append({'q': renamed(q, dict(zip(letters, p)))})
    return {'files': files, 'queries': qs, 'modes': [r.choice(['mem', 'disk'])], 'ren': r.random() < .85}


ASCII = [chr(c) for c in range(33, 127)]


def crowded(seed):
    """Formulae with more names than there are letters."""
    r = util.rng('P13 crowded', seed)

    def put(t, m):
        return dict(t, x=m.get(t['x'], t['x']), k=[put(c, m) for c in t['k']])
    files, qs = {'items': []}, []
    for n in range(3):
        names = r.sample(ASCII, r.choice([10, 26, 27, 33, 52, 63, 70, 94]))
        use = names + [r.choice(names) for _ in range(r.randint(0, 6))]
        if r.random() < .5:
            r.shuffle(use)
        t = xg.tok('apply', '', [xg.tok('plus')] + [xg.tok('ci', c) for c in use])
        if r.random() < .5:                   # over several levels
            k = r.randint(2, 9)
            t['k'] = t['k'][:k] + [xg.tok('apply', '', [xg.tok('times')] + t['k'][k:])]
        forms = [t]
        other = r.sample(ASCII, len(names))
        forms.append(put(t, dict(zip(names, other))))
        for _ in range(4):                    # two names become one, or one use gets another name
            a, b = r.sample(names, 2)
            c = r.random()
            if c < .4:
                i, j = sorted(r.sample(range(len(names)), 2))
                a, b = r.choice([(names[-1], names[0]), (names[j], names[i]), (names[j], names[max(0, j - 26)])])
            forms.append(put(t, {a: b}) if a != b else t)
        for i, f in enumerate(forms):
            if r.random() < .6:
                files['items'].append({'i': 'expr', 'url': 'n%d/%d' % (n, i), 'id': '', 'terms': [f]})
            qs.append({'q': f})
            qs.append({'q': put(f, dict(zip(names, r.sample(ASCII, len(names)))))})
    if not files['items']:
        files['items'].append({'i': 'expr', 'url': 'u', 'id': '', 'terms': [qs[0]['q']]})
    return {'files': [files], 'queries': qs, 'modes': [r.choice(['mem', 'disk'])], 'ren': True}


CFG = '''SPECIFICATION Spec
CONSTANTS NoBound=NoBound N=%d Leaf={%s} Wrong="%s" Emit=%s
INVARIANTS IsCanonical EqualAsMeant EmitAll
'''
FEW, MANY = '"ci#a","ci#b","ci#ab"', '"ci#a","ci#b","ci#c","ci#ab","cn#1"'


def model(rep):
    """Renaming as a machine, against what it is for; the expressions it is checked on."""
    util.mc(rep, 'RenameMC', CFG % (4, MANY if util.THOROUGH else FEW, 'no', 'FALSE'), workers=8, timeout=800)
    for w in ('table kept', 'operators too', 'a name for each use', 'breadth first'):
        util.refuted(rep, 'RenameMC', CFG % (4 if w == 'breadth first' else 3, '"ci#a","ci#b"', w, 'FALSE'), w)
    out = util.generated(util.mc(rep, 'RenameMC', CFG % (4, MANY if util.THOROUGH else '"ci#a","ci#b","ci#c","ci#ab"', 'no', 'TRUE'), workers=8).out)
    return sorted((g['t'] for g in out), key=util.json.dumps)


def universe(forms, k):
    """Expressions of the model indexed; all of a part of them asked, with and without a variable somewhere."""
    r = util.rng('P13 universe', k)

    def full(t):
        return xg.tok(t['t'], t['x'], [full(c) for c in t['k']])

    def opened(t):
        if r.random() < .3 or not t['k']:
            return xg.qvar(r.choice(['', 'v', 'v', 'w']))
        i = r.randrange(len(t['k']))
        return dict(t, k=[opened(c) if j == i or r.random() < .1 else c for j, c in enumerate(t['k'])])
    inside = [full(t) for t in r.sample(forms, min(len(forms), r.choice([20, 100, 400])))]
    ask = [full(t) for t in r.sample(forms, 60)] + r.sample(inside, min(20, len(inside)))
    ask += [opened(t) for t in r.sample(ask, 40)]
    items = [{'i': 'expr', 'url': 'u%d' % i, 'id': '', 'terms': [t]} for i, t in enumerate(inside)]
    return {'files': [{'items': items}], 'queries': [{'q': q} for q in ask], 'modes': [['mem', 'disk', 'x'][k % 3]], 'ren': True}


def run():
    rep = util.Report('P13', 'model_checking')
    search.bins()
    forms = model(rep)
    rep.add('universe_formulae', len(forms))
    n = 1500 if util.THOROUGH else 120
    S = [trace.Session(scenario(i), search.ask_session, 'P13 scenario %d' % i) for i in range(n)]
    S += [trace.Session(crowded(i), search.ask_session, 'P13 crowded scenario %d' % i) for i in range(n // 8)]
    S += [trace.Session(universe(forms, i), search.ask_session, 'P13 universe %d' % i) for i in range(60 if util.THOROUGH else 9)]
    trace.check(rep, 'SearchTrace', S)
    return rep.finish()
