"""P02: every hit points at the place where the match occurs."""
from .. import util, gen, search, trace


def scenario(seed):
    r = util.rng('P02', seed)
    files, pool = gen.harvest(r, r.choice([1, 2, 3]), r.randint(3, 10), r.randint(1, 4), datap=.4, many=.2)
    if r.random() < .4:                   # several expressions with one address
        for f in files:
            for it in f['items']:
                if it['i'] == 'expr' and r.random() < .4:
                    it['url'] = 'same'
    sizes = [10 ** 3, 2 ** 12 - 1, 2 ** 15, 2 ** 16 - 1, 2 ** 16, 2 ** 16 + 1, 70000, 200000]
    long = r.random() < .25
    if long:                              # long addresses and data
        for f in files:
            for it in f['items']:
                if it['i'] == 'expr' and r.random() < .3:
                    it['url'] += 'x' * (r.choice(sizes) - len(it['url']) + r.choice([-1, 0, 0, 1]))
                if it['i'] == 'data' and r.random() < .5:
                    it['toks'] = ['T:' + 'd' * (r.choice(sizes) + r.choice([-1, 0, 1]))]
    qs = [{'q': gen.question(r, pool)} for _ in range(r.randint(3, 6) if long else r.randint(15, 25))]
    return {'files': files, 'queries': qs, 'modes': [r.choice(['mem', 'disk'])]}


def run():
    rep = util.Report('P02', 'model_checking')
    search.bins()
    n = 2000 if util.THOROUGH else 150
    S = [trace.Session(scenario(i), search.ask_session, 'P02 scenario %d' % i) for i in range(n)]
    trace.check(rep, 'SearchTrace', S)
    return rep.finish()
