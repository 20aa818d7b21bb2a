"""P12: all output formats report the same result."""
from .. import util, gen, search, trace, xmlgen as xg

NASTY = ['http://x.org/?a=1&b=2', 'a<b>', '"quoted"', "it's", 'é∑𝔸', 'with space', '#frag', ' lead', 'trail ', 'a\tb', 'a\nb', '&amp;', ']]>',
         '%20', '\\back\\', '{}[]', '\u007f', '\u00a0', '/', 'x' * 300, '&#38;', '<![CDATA[', '\ud7ff', '']
CHARS = ['doc', 'x < y & z > w', '"q"', "it's", 'é∑𝔸', ']]>', '&amp;', '\\n', '{"a":1}', '/', '\t', '<b>', ' ', '\u2028', '\u00ad']
QN = ['x', 'y1', 'é', 'a<b', 'a&b', '"q"', "q'", 'very_long_name_' * 3, '𝔸', '\\', '</x>']


def nameq(q, r, names):
    if q['t'] == 'mws:qvar':
        n = xg.json.loads(xg.json.dumps(q))
        key = q['a'].get('name', q['x'])
        if key.strip():
            names.setdefault(key.strip(), r.choice(QN) + key.strip())
            if 'name' in n['a']:
                n['a']['name'] = names[key.strip()]
            else:
                n['x'] = names[key.strip()]
        return n
    return dict(q, k=[nameq(c, r, names) for c in q['k']])


def scenario(seed):
    r = util.rng('P12', seed)
    leaves = xg.LEAVES + [('ci', 'é'), ('ci', '<'), ('csymbol', 'a&b'), ('ci', '"'), ('mtext', ']]>')]
    files, pool = gen.harvest(r, r.choice([1, 2]), r.randint(3, 12), r.randint(1, 3), leaves=leaves, datap=.4)
    for f in files:
        for it in f['items']:
            if it['i'] == 'expr' and r.random() < .7:
                it['url'] = r.choice(NASTY) + (it['url'] if r.random() < .7 else '')
            if it['i'] == 'data':
                it['toks'] = xg.rdata(r, chars=CHARS)
    qs = []
    for k in range(r.randint(5, 10)):
        q = xg.qvar(r.choice(QN)) if k == 0 else nameq(gen.question(r, pool, leaves, noise=0), r, {})
        pg = [(0, search.BIG)] + [(r.randint(0, 12), r.randint(0, 12)) for _ in range(3)] + [(0, 0)]
        qs.append({'q': q, 'id': 'q%d' % k, 'pages': pg[1:], 'xml': pg, 'ids': pg})
    if r.random() < .25:                      # long paths
        t = r.choice(pool)
        for _ in range(r.choice([10, 30, 45, 49, 50, 51, 52, 55])):
            t = xg.tok('apply', '', [xg.tok('eq')] + r.choice([[t], [t], [xg.tok('ci', 'b'), t], [xg.tok('cn', '1')] * 11 + [t]]))
            if xg.size(t) > 250:
                break
        if r.random() < .3:
            t = xg.tok('apply', '', [xg.tok('eq'), t])
        files[0]['items'].append({'i': 'expr', 'url': 'deep', 'id': '', 'terms': [t]})
        for p in (.1, .3):
            q = xg.abstracted(t, r, 0, names=('x', 'y'))
            n = q
            while n['k'] and r.random() < .985:         # a variable far down
                m, n = n, n['k'][-1]
            if n is not q:
                m['k'][-1] = xg.qvar('deep')
            qs.append({'q': q, 'id': 'deep', 'pages': [(0, 5)], 'xml': [(0, search.BIG), (0, 2)], 'ids': [(0, 5)]})
    return {'files': files, 'queries': qs, 'modes': [r.choice(['mem', 'disk'])]}


def run():
    rep = util.Report('P12', 'model_checking')
    search.bins()
    n = 800 if util.THOROUGH else 80
    S = [trace.Session(scenario(i), search.ask_session, 'P12 scenario %d' % i) for i in range(n)]
    trace.check(rep, 'SearchTrace', S)
    return rep.finish()
