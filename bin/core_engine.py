"""The engine of the API-level specification (spec/CacheDeps.tla):
 1. exhaustive exploration of the scopes of the property (spec/MCDeps.tla) with its invariants, and replay of histories
    exported from that exploration in the real code;
 2. random histories executed by the real code, validated by TLC against spec/TraceDeps.tla."""
import json
import os
import random
import sys

import scopes
from vlib import run_tlc, run_harness, tlc_ok, marked, split, NCPU, HARNESS, MachineryError

sys.path.insert(0, HARNESS)
import gen

FIELDS = {'op', 's', 'al', 'ver', 'key', 'keys', 'abort', 'dflt', 'val', 'tags', 'timeout', 'n', 'on', 'tag', 'name', 'obs'}

# Which differences speak of which property.
STALE = {'stale', 'wrong', 'exc'}
LOST = {'lost', 'wrong', 'exc'}
ANY = {'stale', 'lost', 'wrong', 'exc'}
POLARITY = dict(C01=STALE, C02=ANY, C03=ANY, C04=STALE, C05=LOST, C06=ANY, C07=ANY, C08=STALE, C09=ANY, C10=ANY, C11=ANY,
                C12=STALE, C13=LOST, C14=ANY, C15=ANY, C16=ANY, C17=ANY, C18=ANY, C19=STALE)


def differences(op, want, obs, dflt=None):
    """Kinds of the difference between the prescribed and the real observation; empty if they are equal."""
    if isinstance(obs, str) and obs.startswith('EXC:'):
        return {'exc'}
    if op in ('getm', 'peek'):
        w, o = set(map(tuple, want)), set(map(tuple, obs))
        kinds = set()
        wk, ok = dict((x[:-1], x[-1]) for x in w), dict((x[:-1], x[-1]) for x in o)
        if set(ok) - set(wk):
            kinds.add('stale')
        if set(wk) - set(ok):
            kinds.add('lost')
        if any(ok[k] != wk[k] for k in wk if k in ok):
            kinds.add('wrong')
        return kinds
    if want == obs:
        return set()
    miss = {'get': dflt, 'gos1': 'miss'}.get(op)
    if miss is not None and obs == miss:
        return {'lost'}
    if miss is not None and want == miss:
        return {'stale'}
    return {'wrong'}


def show(e):
    return ' '.join('%s=%s' % (k, json.dumps(v, ensure_ascii=False)) for k, v in e.items() if k not in ('f',))


def render(t, l):
    head = 'aliases: %s\nnames: %s' % (json.dumps(t['cfg']), json.dumps(t['names'], ensure_ascii=False)[:1500])
    return head + '\n' + '\n'.join('%3d. %s' % (i + 1, show(e)) for i, e in enumerate(t['ev'][:l]))


def report(check, t, l, want, kinds, origin):
    e = t['ev'][l - 1]
    text = ('%s: event %d (%s) of a history of the real code: the specification prescribes %s, observed %s (%s)\n%s'
            % (origin, l, e['op'], json.dumps(want, ensure_ascii=False), json.dumps(e['obs'], ensure_ascii=False),
               '/'.join(sorted(kinds)), render(t, l)))
    check.violation(text, dict(kind='core', trace=dict(t, ev=t['ev'][:l]), want=want))


# -- validation of recorded traces

def validate(check, traces, origin, polarity):
    """traces: full traces. TLC decides about every one of them."""
    if not traces:
        return
    path = check.work.path('traces.ndjson')
    with open(path, 'w') as f:
        for i, t in enumerate(traces):
            ev = []
            for e in t['ev']:
                x = {k: v for k, v in e.items() if k in FIELDS}
                if e['op'] in ('getm', 'peek'):
                    x['err'] = '' if isinstance(e['obs'], list) else e['obs']
                    if x['err']:
                        x['obs'] = []
                ev.append(x)
            f.write(json.dumps(dict(id=i, cfg=[{k: a[k] for k in ('iso', 'delay', 'be')} for a in t['cfg']],
                                    nsess=t['nsess'], ev=ev)) + '\n')
    res = tlc_ok(run_tlc('TraceDeps.tla', 'TraceDeps.cfg', check.work, env={'TRACES': path}, tag='tv'), 'TraceDeps')
    os.unlink(path)
    check.add_tlc(res, 'TraceDeps')
    check.cov['traces_validated_against_impl'] += len(traces)
    check.count('events_validated', sum(len(t['ev']) for t in traces))
    found = []
    for d in marked(res['out'], 'DIVERGED'):
        t = traces[d['tr']]
        e = t['ev'][d['l'] - 1]
        kinds = differences(e['op'], d['want'], e['obs'], e.get('dflt'))
        if not kinds:
            kinds = {'wrong'}
        if kinds & polarity:
            found.append((d['l'], d['tr'], d['want'], kinds))
        else:
            check.count('divergences_of_other_properties')
    found.sort(key=lambda x: x[0])
    for l, tr, want, kinds in found[:3]:
        report(check, traces[tr], l, want, kinds, origin)
    if len(found) > 3:
        check.count('more_violations', len(found) - 3)


def read_traces(paths):
    res = []
    for p in paths:
        if os.path.exists(p):
            with open(p) as f:
                for line in f:
                    res.append(json.loads(line))
    return res


def harness_failed(check, results, what):
    for r in results:
        if 'crash' in r:
            raise MachineryError('%s: the harness failed\n%s' % (what, r['crash']))


def random_histories(check, profile, count, budget, polarity, chunk=6000):
    start = 0
    while count > 0:
        n = min(count, chunk)
        count -= n
        outs = [check.work.path('rand%d.ndjson' % i) for i in range(NCPU)]
        jobs = [dict(out=o, profile=profile, seed=check.seed, start=start + i, stride=NCPU, count=c,
                     budget_s=budget * n / float(n + count))
                for i, (o, c) in enumerate(zip(outs, split(n)))]
        budget -= budget * n / float(n + count)
        start += NCPU * (n // NCPU + 1)
        harness_failed(check, run_harness('core_run.py', jobs, check.work, timeout=900), 'random histories')
        traces = read_traces(outs)
        for t in traces[:1]:
            check.sample({'history of the real code': [show(e) for e in t['ev'][:25]]})
        validate(check, traces, 'random history (profile %s)' % profile, polarity)
        if check.violations:
            return


# -- exhaustive exploration, and replay of its histories

def dress(scope, log, r):
    """Gives real names and forms to a history of the specification."""
    isos = scopes.ISO[scope['Isos']]
    vers = [v.strip().strip('"') for v in scope['Vers'].strip('{}').split(',')]
    keys = ['k%d' % i for i in range(scope['NK'])]
    tags = ['t%d' % i for i in range(scope['NT'])]
    wiring = r.choice(['django', 'django', 'django', 'abstract'])
    cfg = []
    for i, iso in enumerate(isos):
        kind = r.choice(['vb', 'vb', 'lm']) if wiring == 'django' else 'vb'
        a = dict(iso=iso, delay=scope['Delay'], be=i + 1, name='%s%d' % (kind, i), backend='%s%d' % (kind, i))
        if wiring == 'django' and i == 0 and kind == 'vb' and r.random() < 0.3:
            a['name'] = a['backend'] = 'default'
            a['proxy'] = r.random() < 0.6
        cfg.append(a)
    ev = []
    for e in log['ev']:
        e = dict(e)
        if 's' in e:
            e['f'] = r.randint(0, 9999)
        ev.append(e)
    ev.append({'op': 'peek'})
    return dict(cfg=cfg, nsess=scope['NS'], wiring=wiring,
                names=dict(tags=dict(zip(tags, r.sample(gen.TAG_POOL, len(tags)))),
                           keys=dict(zip(keys, r.sample(gen.KEY_POOL, len(keys)))), vers=vers),
                ev=ev, want=log['want'] + [log['peek']])


def explore(check, scope, index, limit, polarity):
    cfg = check.work.path('mc%d.cfg' % index)
    mod = check.pick(25, 150)
    with open(cfg, 'w') as f:
        f.write(scopes.cfg_text(scope, check.tier, check.seed, mod))
    res = run_tlc('MCDeps.tla', cfg, check.work, tag='mc%d' % index, timeout=880)
    if res['rc'] != 0:
        raise MachineryError('MCDeps: the specification does not satisfy %s\n%s' % (scope['inv'], res['out'][-3000:]))
    check.add_tlc(res, 'MCDeps %s len<=%d %s' % (scope['Ops'], scope['len'][check.tier], scope['Isos']))
    r = random.Random('%s-%s-%d' % (check.prop, check.seed, index))
    logs = sorted(marked(res['out'], 'LOG'), key=lambda x: json.dumps(x, sort_keys=True))
    if len(logs) > limit:
        logs = r.sample(logs, limit)
    return [dress(scope, log, r) for log in logs]


def replay(check, traces, polarity):
    """Histories of the specification, executed by the real code; every observation is compared."""
    files = []
    for i in range(NCPU):
        p = check.work.path('exp%d.ndjson' % i)
        with open(p, 'w') as f:
            for t in traces[i::NCPU]:
                f.write(json.dumps(t) + '\n')
        files.append(p)
    jobs = [dict(out=p + '.out', replay=p) for p in files]
    harness_failed(check, run_harness('core_run.py', jobs, check.work, timeout=900), 'replay')
    found = []
    done = read_traces([p + '.out' for p in files])
    for t in done:
        for l, e in enumerate(t['ev']):
            want = t['want'][l]
            if e['op'] in ('getm', 'peek'):
                kinds = differences(e['op'], want, e['obs'])
            else:
                kinds = differences(e['op'], want, e['obs'], e.get('dflt'))
            if kinds:
                if kinds & polarity:
                    found.append((l + 1, t, want, kinds))
                else:
                    check.count('divergences_of_other_properties')
                break
    check.cov['traces_validated_against_impl'] += len(done)
    check.count('histories_of_the_specification_replayed', len(done))
    found.sort(key=lambda x: x[0])
    for l, t, want, kinds in found[:2]:
        report(check, t, l, want, kinds, 'history exported from the specification')


def run(check, count=None, budget=None):
    prop = check.prop
    polarity = POLARITY[prop]
    traces = []
    for i, scope in enumerate(scopes.SCOPES.get(prop, [])):
        traces += explore(check, scope, i, check.pick(500, 6000), polarity)
    if traces:
        check.sample({'history of the specification': [show(e) for e in traces[0]['ev']]})
        replay(check, traces, polarity)
    if not check.violations:
        random_histories(check, prop, count or check.pick(1600, 30000), budget or check.pick(18, 400), polarity)
