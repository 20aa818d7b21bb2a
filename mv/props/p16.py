"""P16: a schema generalises each of its formulae, cut at the requested depth."""
import json, re
from .. import util, gen, search, trace, schema, xmlgen as xg

CFG = '''SPECIFICATION %s
CONSTANTS NoBound=NoBound N=%d Depths={%s} Key="%s"
INVARIANTS %s
'''


def model(rep):
    """The streaming algorithm against the cut of the tree; emits every small term."""
    n = 7 if util.THOROUGH else 6
    runs = [('Spec', n, '0,1,2,3,4,5', 'stream', 'ReadsAll CopiesTheCut RebuildsTheCut', 0),
            ('Spec', 6 if util.THOROUGH else 5, '0', 'stream', 'Emit', 1),
            ('OneSpec', n, '0,1,2,3,4', 'stream', 'KeyTellsApart Coarser', 0),
            ('OneSpec', n, '0', 'both', 'RelKeyTellsApart', 0)]
    terms = []
    for sp, k, d, key, inv, emit in runs:
        x = util.mc(rep, 'SchemaMC', CFG % (sp, k, d, key, inv), unused=None if emit or sp == 'OneSpec' else ())
        if emit:
            terms = util.generated(x.out)
    util.refuted(rep, 'SchemaMC', CFG % ('OneSpec', 6, '0', 'stream', 'RelKeyTellsApart'), 'the copied tokens as the only key in relative mode')
    return terms


def enumerated(terms, ren):
    """Every small term at every depth, many to a query."""
    r = util.rng('P16 enumerated', ren)
    r.shuffle(terms)
    step, reqs = 90, []
    for k in range(0, len(terms), step):
        ts = [schema.from_stream(t, 'f%d' % i) for i, t in enumerate(terms[k:k + step])]
        for d, mode in [(0, 'A'), (1, 'A'), (2, 'A'), (3, 'A'), (4, 'A'), (0, 'R'), (34, 'R'), (50, 'R'), (75, 'R'), (100, 'R'), (150, 'R')]:
            reqs.append(schema.request(ts, {'schema_depth': str(d), 'cutoff_mode': mode, 'answsize': '0', 'output': 'json'}, ren, r))
    return [{'ren': ren, 'reqs': reqs[i:i + 8]} for i in range(0, len(reqs), 8)]


def deep(r):
    """A chain, possibly through operators, with side branches."""
    t = xg.tok('ci', 'z')
    for _ in range(r.choice([3, 12, 40, 100])):
        c = r.random()
        side = [xg.tok('ci', r.choice('abc'))] if r.random() < .3 else []
        if c < .4:
            t = xg.tok('f', '', [t] + side)
        elif c < .7:
            t = xg.tok('apply', '', [t] + side)
        else:
            t = xg.tok('apply', '', [xg.tok('plus')] + side + [t])
    return t


def scenario(seed):
    r = util.rng('P16', seed)
    ren = r.random() < .3
    reqs = []
    leaves = xg.LEAVES + [('ci', '<b>&'), ('mtext', 'one two'), ('ci', 'é∑'), ('csymbol', '"q"'), ('cn', ' 1 ')]
    for _ in range(8):
        ts = [deep(r) if r.random() < .15 else xg.noisy(xg.rterm(r, r.randint(1, 6), leaves), r) for _ in range(r.choice([1, 1, 2, 4]))]
        ts = [schema.with_xrefs(t, r, r.choice([0, .5, 1, 1]), 'f%d' % i) for i, t in enumerate(ts)]
        a = {'output': r.choice(['json', 'json', 'json', 'xml', ''])}
        c = r.random()
        if c < .9:
            a['schema_depth'] = str(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 50, 99, 100, 255, 256, 257, 1000]))
        if r.random() < .5:
            a['cutoff_mode'] = r.choice(['A', 'R', 'R', 'R', 'x', ''])
            if a['cutoff_mode'] == 'R':
                a['schema_depth'] = str(r.choice([0, 1, 10, 20, 25, 29, 33, 50, 58, 66, 75, 80, 99, 100, 101, 200]))
        if a['output'] == '':
            del a['output']
        reqs.append(schema.request(ts, a, ren, r))
    return {'ren': ren, 'reqs': reqs}


def wide(seed):
    """More cut-off subterms than fit into small numbers."""
    r = util.rng('P16 wide', seed)

    def kids(n, k):
        return [xg.tok('apply', '', [xg.tok('g'), xg.tok('ci', '%s%d' % (k, i))]) if r.random() < .9 else xg.tok('ci', '%s%d' % (k, i))
                for i in range(n)]
    n = r.choice([[40], [130], [200], [254], [128, 127], [128, 128], [150, 150], [200, 200], [90, 90, 90], [254, 10]])
    t = xg.tok('apply', '', [xg.tok('h')] + [xg.tok('apply', '', [xg.tok('f')] + kids(k, 'abc'[i])) for i, k in enumerate(n)])
    t = schema.with_xrefs(t, r, r.choice([0, 1]), 'f')
    ren = r.random() < .2
    return {'ren': ren, 'reqs': [schema.request(
        [t], {'output': r.choice(['json', 'json', 'xml']), 'schema_depth': str(d), 'answsize': '0'}, ren, r) for d in (2, r.choice([1, 3]))]}


def run():
    rep = util.Report('P16', 'model_checking')
    search.need('schemad')
    terms = model(rep)
    rep.add('terms_generated', len(terms))
    S = [trace.Session(sc, schema.session, 'P16 all small terms part %d' % i) for i, sc in enumerate(enumerated(terms, False))]
    S += [trace.Session(scenario(i), schema.session, 'P16 scenario %d' % i) for i in range(1500 if util.THOROUGH else 150)]
    S += [trace.Session(wide(i), schema.session, 'P16 wide scenario %d' % i) for i in range(40 if util.THOROUGH else 8)]
    trace.check(rep, 'SchemaTrace', S)
    return rep.finish()
