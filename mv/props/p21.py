"""P21: converting documents to a harvest keeps every identified formula."""
import json
from .. import util, search, trace, docs

NAMES = ['a.xhtml', 'b c.html', 'é.html', 'x&y<z>.xml', 'q"\'.html', '\udcff\udc80.html', '%s.html', 'n\n.html']


def options(r):
    o = {'hasconf': r.random() < .6, 'hasx': r.random() < .3, 'n': r.random() < .2, 'x': docs.selector(r), 'conf': {}}
    names = ['author', 'Title', 'a-b', 'x.y', 'Zusammenfassung', 'é', 'm_1']
    r.shuffle(names)
    if o['hasconf']:
        o['conf'] = {'data': r.random() < .85, 'hasid': r.random() < .5, 'id': docs.selector(r),
                     'text': docs.sel() if r.random() < .5 else docs.selector(r),
                     'meta': [{'name': n, 'sel': docs.selector(r)} for n in names[:r.randint(0, 4)]]}
    return o


def document(r, style, name, size, cdata):
    tree = docs.Gen(r, style, size).document()
    return {'kind': 'good', 'name': name, 'tree': tree, 'hex': docs.render(r, style, tree, cdata).hex()}


def scenario(i):
    r = util.rng('P21', i)
    opts = options(r)
    # without data, documents that are not known are told by their path
    anys = not ((opts['n'] or (opts['hasconf'] and not opts['conf']['data'])) and
                (opts['hasx'] or (opts['hasconf'] and opts['conf']['hasid'])))
    cdata = '"math"' not in json.dumps(opts)      # text of formulae is not asked for
    ds = []
    for j in range(r.choice([1, 1, 2, 4, 7])):
        d = document(r, r.choice(['xhtml', 'prefix', 'plain', 'html', 'html']), '%d %s' % (j, r.choice(NAMES)), r.choice([1, 2, 3]), cdata)
        k = r.random()
        if k < .1:
            d = {'kind': 'missing', 'name': d['name']}
        elif k < .3 and anys:
            d = {'kind': 'any', 'name': d['name'], 'hex': docs.garbage(r, bytes.fromhex(d['hex'])).hex()}
        ds.append(d)
    return {'opts': opts, 'docs': ds, 'outexists': r.random() < .3}


CFG = '''SPECIFICATION Spec
CONSTANTS NoBound=NoBound MaxLen=%d MaxDocs=%d Mode="%s" Emit=%s
INVARIANTS EntriesAsMeant EmitDocs
'''


def model(rep):
    """The converter's walks and the ingestion of the harvest against what is meant; every small document is printed."""
    out = util.generated(util.mc(rep, 'DocsMC', CFG % (6 if util.THOROUGH else 4, 1, 'put', 'TRUE'), workers=8).out)
    util.mc(rep, 'DocsMC', CFG % (3 if util.THOROUGH else 2, 2, 'put', 'FALSE'), workers=8)
    for m, n, k in (('get', 3, 1), ('count', 3, 1), ('hold', 1, 2)):
        util.refuted(rep, 'DocsMC', CFG % (n, k, m, 'FALSE'), m)
    return out


def tree(g, toks):
    """The document a sequence of the model stands for."""
    st = [[]]
    for x in toks:
        if x == '(':
            st.append([])
        elif x == ')':
            k = st.pop()
            st[-1].append(g.h('span', k))
        elif x == 'w':
            st[-1].append(docs.text(' w '))
        else:
            leaf = g.me('ci', [docs.text(x)], {'xref': 'x'})
            ann = g.me('annotation-xml', [leaf], {'encoding': docs.ENC} if x != 'N1' else {})
            st[-1].append(g.me('math', [g.me('semantics', [g.me('mi', [docs.text('x')]), ann])], {'id': x[1]} if x != 'C' else {}))
    return docs.elem('#doc', [g.h('html', [g.h('body', [g.h('p', st[0])])])])


def enumerated(gen, per):
    out = []
    r = util.rng('P21 gen')
    for region in (False, True):
        ds = [x['docs'][0] for x in gen if x['region'] == region]
        r.shuffle(ds)
        for k in range(0, len(ds), per):
            docl = []
            for j, toks in enumerate(ds[k:k + per]):
                if toks == ['missing']:
                    docl.append({'kind': 'missing', 'name': '%d' % j})
                    continue
                style = r.choice(['xhtml', 'prefix', 'plain', 'html'])
                t = tree(docs.Gen(r, style), toks)
                docl.append({'kind': 'good', 'name': '%d.html' % j, 'tree': t, 'hex': docs.render(r, style, t).hex()})
            out.append({'opts': {'hasconf': region, 'hasx': False, 'n': r.random() < .2, 'x': docs.sel(), 'conf': {
                'data': True, 'hasid': False, 'id': docs.sel(), 'text': docs.sel('span'), 'meta': []} if region else {}}, 'docs': docl})
    return out


def run():
    rep = util.Report('P21', 'model_checking')
    search.need('docs2harvest')
    gen = model(rep)
    rep.add('documents_generated', len(gen))
    S = [trace.Session(sc, docs.session, 'P21 enumerated documents part %d' % i) for i, sc in enumerate(enumerated(gen, 40))]
    S += [trace.Session(scenario(i), docs.session, 'P21 scenario %d' % i) for i in range(20000 if util.THOROUGH else 1500)]
    trace.check(rep, 'DocsTrace', S)
    return rep.finish()
