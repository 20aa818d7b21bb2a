"""P08: harvest ingestion keeps every complete expression and never mislinks data."""
from .. import util, gen, search, trace, streams, family, xmlgen as xg


def mc(rep, n, names):
    r = util.mc(rep, 'HarvestMC', '''SPECIFICATION Spec
CONSTANTS NoBound = NoBound N = %d Names = {%s} EmitAll = %s
INVARIANTS MachineMeansStream NothingAfterError Emit
''' % (n, ','.join('"%s"' % x for x in names.split(',')), 'TRUE' if n <= 5 else 'FALSE'))
    return list(streams.emitted(r.out))


def batch_scenario(evs, first, mode):
    """Many generated streams, each in its own file, in one directory."""
    files = []
    r = util.rng('P08 batch', first)
    for i, ev in enumerate(evs):
        ev = streams.personal(ev, first + i)
        files.append({'name': 'f%05d.harvest' % i, 'events': ev, 'xml': streams.render(ev, r, noise=.03).decode('latin-1')})
    return {'files': files, 'queries': [{'q': xg.qvar('')}], 'modes': [mode], 'data': mode != 'nodata'}


def scenario(seed):
    r = util.rng('P08', seed)
    pool = gen.related_terms(r, 12, 2, 12)
    files = []
    for f in range(r.randint(1, 4)):
        ev = streams.random_stream(r, f, pool, r.choice([2, 6, 10]))
        files.append({'events': ev, 'xml': streams.render(ev, r).decode('latin-1')})
    qs = [{'q': xg.qvar('')}] + [{'q': gen.question(r, pool)} for _ in range(3)]
    return {'files': files, 'queries': qs, 'modes': [r.choice(['mem', 'mem', 'disk', 'nodata'])], 'ren': r.random() < .1}


def session(sc):
    sc = dict(sc, files=[dict(f, xml=f['xml'].encode('latin-1')) for f in sc['files']])
    if sc['modes'] == ['nodata']:
        sc['modes'], sc['data'] = ['mem'], False
    return search.ask_session(sc)


def run():
    rep = util.Report('P08', 'model_checking')
    search.bins()
    S = []
    first = 0
    for n, names in ([(7, 'E1,E2,E3,D1,D2,D3,F'), (8, 'E1,D1,F'), (10, 'E1,D1')] if util.THOROUGH else
                     [(5, 'E1,E2,E3,D1,D2,D3,F'), (6, 'E1,E2,E3,D1,D2,D3,F'), (8, 'E1,D1,F')]):
        evs = mc(rep, n, names)
        rep.add('generated_streams_replayed', len(evs))
        for i in range(0, len(evs), 150):
            k = len(S)
            S.append(trace.Session(batch_scenario(evs[i:i + 150], first, ['mem', 'disk', 'mem', 'nodata'][k % 4]), session,
                                   'P08 streams of length <= %d over %s, part %d' % (n, names, i // 150)))
            first += 150
    for i in range(900 if util.THOROUGH else 120):
        S.append(trace.Session(scenario(i), session, 'P08 scenario %d' % i))
    S = [trace.Session(family.many_documents(i, n, [m]), family.session, 'P08 %d documents (%s)' % (n, m))
         for i, (n, m) in enumerate([(66000, 'mem'), (300, 'mem'), (255, 'disk'), (257, 'disk')] + ([(40000, 'disk'), (70000, 'disk'), (1000, 'mem')] if util.THOROUGH else []))] + S
    trace.check(rep, 'SearchTrace', S)
    return rep.finish()
