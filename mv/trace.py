"""Sessions: scenarios executed on the real programs, their recorded events judged by a TLA+ trace specification."""
import concurrent.futures as cf, json, os, re, sys
from . import util


class Session:
    """A scenario (plain JSON data) plus the function that executes it and records events."""

    def __init__(self, scenario, execute, label=''):
        self.scenario, self.execute, self.label = scenario, execute, label
        self.events = None
        self.rejects = []


def run_all(sessions, workers=8):
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(s.execute, s.scenario) for s in sessions]
        for s, f in zip(sessions, futs):
            s.events = f.result()


def depth(t):
    """Nesting of a raw token."""
    d, level = 0, [t]
    while level:
        d += 1
        level = [c for x in level for c in x['k']]
    return d


def flat(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        out.append({'t': x['t'], 'a': x['a'], 'x': x['x'], 'n': len(x['k'])})
        st.extend(reversed(x['k']))
    return {'flat': out}


def plain(v):
    """v with the terms that are nested too deeply for TLC's JSON reader written flat."""
    if isinstance(v, dict):
        if 't' in v and 'k' in v:
            return flat(v) if depth(v) > 60 else v
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def judge(module, sessions, cfg=None, env=None):
    """One TLC run over the events of the sessions; fills in .rejects; returns the number of states."""
    d = util.newdir('trace')
    path = os.path.join(d, 'trace.ndjson')
    owner = []
    with open(path, 'w') as f:
        for s in sessions:
            for i, e in enumerate([{'e': 'Forget'}] + s.events):
                f.write(json.dumps(plain(e)) + '\n')
                owner.append((s, i - 1))
    if not owner:
        return 0
    e = {'TRACE': path}
    e.update(env or {})
    r = util.tlc(module, cfg or module + '.cfg', env=e, timeout=800)
    m = re.search(r'ACCEPTED-LENGTH (\d+) REJECTS (\d+)', r.out)
    if not m or int(m.group(1)) != len(owner):
        at = r.distinct
        hint = json.dumps(owner[at - 1][0].events[owner[at - 1][1]])[:1500] if 0 < at <= len(owner) else ''
        raise util.CheckError('trace validation by %s did not complete:\n%s\nnear event: %s' % (module, r.out[-3500:], hint))
    n = 0
    parts = re.split(r'"REJECT (\d+) ([^"\n]*)"\n', r.out)
    for k in range(1, len(parts), 3):
        n += 1
        s, i = owner[int(parts[k]) - 1]
        exp = parts[k + 2]
        exp = re.split(r'\n(?:Progress|Model checking|Checking|"ACC|Finished|\d+ states)', exp)[0]
        s.rejects.append(dict(event=i, what=parts[k + 1], expected=exp.strip()[:1500], observed=s.events[i] if i >= 0 else None))
    assert n == int(m.group(2)), (n, m.group(2), r.out[-3000:])
    return r.distinct


def validate(module, sessions, cfg=None, env=None, jvms=6, batch=None):
    """Judge the sessions in a few parallel TLC processes."""
    sessions = [s for s in sessions if s.events]
    if not sessions:
        return 0
    weights = [sum(len(json.dumps(e)) for e in s.events) for s in sessions]
    k = min(jvms, len(sessions), max(1, sum(weights) // 20000 + 1))
    groups = [[] for _ in range(k)]
    load = [0] * k
    for w, s in sorted(zip(weights, sessions), key=lambda x: -x[0]):
        i = load.index(min(load))
        groups[i].append(s)
        load[i] += w
    with cf.ThreadPoolExecutor(k) as ex:
        return sum(ex.map(lambda g: judge(module, g, cfg, env), groups))


def check(report, module, sessions, cfg=None, workers=8, env=None, keyof=None, attempts=2):
    """Execute, judge, re-execute whatever was rejected, report what is rejected again."""
    run_all(sessions, workers)
    states = validate(module, sessions, cfg, env)
    nev = sum(len(s.events) for s in sessions)
    for s in sorted((s for s in sessions if s.events), key=lambda s: len(json.dumps(s.events)))[len(sessions) // 3:][:3]:
        report.sample({'session': s.label, 'events': len(s.events), 'last event': json.dumps(s.events[-1])[:1500]})
    report.add('traces_validated_against_impl', len(sessions))
    report.add('events_validated', nev)
    report.add('states', states)
    report.add('transitions', max(0, states - 1))
    bad = [s for s in sessions if s.rejects]
    for part in (bad[:2], bad[2:8]):
        if part and not report.violations:
            again(report, module, part, cfg, env, keyof, attempts)
    return states


def again(report, module, bad, cfg, env, keyof, attempts):
    """Re-execute rejected scenarios and report what is rejected again."""
    redone = []
    for s in bad:
        t = Session(s.scenario, s.execute, s.label)
        t.first = s
        redone.append(t)
    run_all(redone, 1)
    validate(module, redone, cfg, env)
    for t in redone:
        if not t.rejects:          # once more: what cannot be repeated is not reported
            for _ in range(attempts - 1):
                u = Session(t.scenario, t.execute, t.label)
                run_all([u], 1)
                validate(module, [u], cfg, env)
                if u.rejects:
                    t.rejects = u.rejects
                    break
        if not t.rejects:
            report.add('unrepeated_rejections')
            util.log('not repeated:', t.label, json.dumps(t.first.rejects[0])[:600])
            continue
        unlisted = [r for r in t.rejects if not (keyof and keyof(t, r) and report.known_finding(keyof(t, r)))]
        if unlisted:
            r = unlisted[0]
            report.violation('%s: %s\n  observed %s\n  expected %s' % (
                t.label, r['what'], json.dumps(r['observed'])[:700], r['expected'][:600]),
                dict(module=module, label=t.label, scenario=t.scenario, reject=r))
