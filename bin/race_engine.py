"""The engine of the interleavings: spec/CacheRace.tla explored by TLC at the granularity of single backend operations,
its schedules executed by the real code under a controlled scheduler, all schedules of small programs and random
programs under random schedules, down to single lines of the library.  Every recorded history is judged by TLC with the
rules of spec/RaceRules.tla (RaceTrace), the same ones that the model is checked against."""
import json
import os
import sys

from vlib import run_tlc, run_harness, tlc_ok, marked, split, NCPU, HARNESS, MachineryError
from core_engine import read_traces, harness_failed

sys.path.insert(0, HARNESS)
import race_gen

RC, RR, SER, RU = 'READ COMMITTED', 'REPEATABLE READ', 'SERIALIZABLE', 'READ UNCOMMITTED'
ALL = 'C01 C02 C08 C10 C11 C12h'


def M(program, iso, delay=0, ticks=0, hist=True):
    return dict(program=program, iso=iso, delay=delay, ticks=ticks, hist=hist)


# what TLC explores, per property: quick, and what thorough adds
MODELS = {
    'C01': ([M('i+s+s', RC), M('i+i+s', RR), M('tx+ss', RR), M('ii+s', RC)], [M('tx+s+s', RC), M('i+i+s', RU), M('tx+s', RC), M('tx+btx', RR, 0, 1)]),
    'C19': ([M('i+s+e', RC), M('tx+s+e', RR), M('w+r+e', RR)], [M('i+s+s+e', RC), M('tx+s+e', RU), M('tx+s+e', SER, 1, 2), M('w2+rr+e', RR, 0, 1, False)]),
    'C02': ([M('i+s+s', RC)], [M('i+i+s', RC), M('tx+ss', RC)]),
    'C08': ([M('tx+ss', RC), M('tx+ss', RR), M('tx+s', RC, 0, 1)], [M('tx+s+s', RC), M('tx+ss', SER, 0, 1), M('tx+s+s', RR)]),
    'C10': ([M('tx+ss', RR), M('tx+s', SER, 0, 1)], [M('tx+s+s', RR), M('tx+btx', SER, 0, 1)]),
    'C11': ([M('tx+btx', RR), M('w+r', RR, 1, 1), M('tx+s', RR, 1, 2)], [M('tx+btx', RR, 0, 1), M('tx+btx', SER, 1, 1), M('w+rr', RR, 1, 1)]),
    'C12': ([M('w+r', RR, 1, 1), M('w2+r', RR), M('w+r+r', RR, 0, 2, False), M('w+w+r', RR, 1, 1, False), M('w+rr', RR, 0, 2, False)],
            [M('w+rr', RR, 1, 1), M('ww+r', RR, 1, 3, False), M('w+w+r', SER, 1, 2, False), M('w+r+r', RR, 1, 3, False),
             M('w+rr', SER, 2, 3, False)]),
    'C14': ([M('tx+s', RC, 1, 2), M('tx+s', RU, 1, 2)], [M('tx+ss', RC, 1, 2)]),
    'C15': ([M('i+s+s', RC)], [M('i+i+s', RR)]),
}
# small programs whose schedules are all executed, with at most so many preemptions (quick, thorough)
TREES = {
    'C19': [('i+s+e', RC, 2, 5), ('tx+s+e', RR, 1, 4)],
    'C01': [('i+s', RC, 2, 6), ('ii+s', RC, 2, 6), ('i+i+s', RR, 1, 3), ('i+s+s', RC, 1, 3)],
    'C08': [('tx+s', RC, 2, 6), ('tx+ss', RR, 1, 4)],
    'C10': [('tx+s', RR, 2, 6), ('tx+s+s', SER, 1, 3)],
    'C11': [('tx+btx', RR, 2, 5)],
    'C12': [('w+r', RR, 2, 7), ('w2+r', RR, 2, 7), ('w+rr', SER, 1, 4), ('w+r+r', RR, 1, 3)],
}
RULES = {'C01': {'C01', 'value'}, 'C02': {'C02', 'value'}, 'C05': {'C02'}, 'C08': {'C08'}, 'C10': {'C10'}, 'C11': {'C11'},
         'C12': {'C12'}, 'C14': {'C14'}, 'C19': {'C01', 'C08', 'value'}, 'C15': {'C01', 'C02', 'C08', 'C10', 'C11', 'value'}}


def cfg(m, inv, mod, seed):
    return '\n'.join([
        'SPECIFICATION Spec', 'VIEW View', 'CHECK_DEADLOCK FALSE', 'CONSTANTS', ' Program = "%s"' % m['program'],
        ' Iso = "%s"' % m['iso'], ' Delay = %d' % m['delay'], ' MaxTicks = %d' % m['ticks'],
        ' KeepHist = %s' % ('TRUE' if m['hist'] else 'FALSE'), ' ExportMod = %d' % mod, ' Seed = %d' % seed,
        'INVARIANTS ' + inv, ''])


def render(t):
    lines = ['%s, delay %s, bulk operations %s, %s' % (t['iso'], t['delay'], 'per key' if t['loop'] else 'atomic', t['wiring'])]
    for e in sorted(t['h'], key=lambda e: e['call']):
        lines.append('  [%3d-%3d, clock %d-%d] session %d: %s %s %s%s -> %s%s' % (
            e['call'], e['ret'], e['t0'], e['t1'], e['s'], e['op'], e['key'], e['val'] + ' ' if e['val'] else '',
            ','.join(e['tags']) + (' computed from %s' % json.dumps(e['data']) if e['data'] else ''), e['out'],
            ' ' + e['exc'] if 'exc' in e else ''))
    return '\n'.join(lines)


def judge(check, traces, origin):
    if not traces:
        return
    path = check.work.path('races.ndjson')
    with open(path, 'w') as f:
        for i, t in enumerate(traces):
            f.write(json.dumps(dict(id=i, iso=t['iso'], delay=t['delay'], h=t['h'])) + '\n')
    res = tlc_ok(run_tlc('RaceTrace.tla', 'RaceTrace.cfg', check.work, env={'TRACES': path}, tag='rt'), 'RaceTrace')
    os.unlink(path)
    check.add_tlc(res, 'RaceTrace')
    check.cov['traces_validated_against_impl'] += len(traces)
    check.count('concurrent_histories_judged', len(traces))
    check.count('scheduling_steps', sum(len(t['sched']) for t in traces))
    mine = RULES[check.prop] | {'exc'}
    found = []
    for d in marked(res['out'], 'BROKEN'):
        rules = set(d['rules'])
        if rules & mine:
            found.append((len(traces[d['tr']]['h']), d['tr'], rules & mine))
        else:
            check.count('broken_rules_of_other_properties')
    found.sort(key=lambda x: x[0])
    for _, tr, rules in found[:3]:
        t = traces[tr]
        check.violation('%s: a concurrent history of the real code breaks the rule%s %s of spec/RaceRules.tla\n%s'
                        % (origin, 's' if len(rules) > 1 else '', ' '.join(sorted(rules)), render(t)),
                        dict(kind='race', trace=t, rules=sorted(rules)))
    if len(found) > 3:
        check.count('more_violations', len(found) - 3)


def explore(check, m, index, limit):
    path = check.work.path('race%d.cfg' % index)
    inv = (ALL if m['hist'] else 'C12') + ' Quiet Exported'
    with open(path, 'w') as f:
        f.write(cfg(m, inv, check.pick(7, 3) if m['hist'] else 101, check.seed))
    res = run_tlc('CacheRace.tla', path, check.work, tag='race%d' % index, timeout=880)
    if res['rc'] != 0:
        raise MachineryError('CacheRace %s: the specification does not satisfy its invariants\n%s' % (m, res['out'][-3000:]))
    check.add_tlc(res, 'CacheRace %(program)s %(iso)s delay=%(delay)s ticks<=%(ticks)s' % m)
    logs = sorted(marked(res['out'], 'SCHED'), key=lambda x: json.dumps(x))
    import random
    if len(logs) > limit:
        logs = random.Random('%d-%d' % (check.seed, index)).sample(logs, limit)
    progs = race_gen.model_program(m['program'])
    return [dict(programs=progs, iso=m['iso'], delay=m['delay'], sched=x['sched'], want=x['hist'],
                 data='N' in ' '.join(race_gen.MODEL[m['program']])) for x in logs]


def agrees(t):
    if not t.get('want'):
        return None
    got = [[e['s'], e['op'], e['out'] or 'ok'] for e in t['h']][:len(t['want'])]
    return got == [[e['s'], e['op'], e['out'] or 'ok'] for e in t['want']]


def run(check, count=None, budget=None):
    prop = check.prop
    given = []
    quick, more = MODELS.get(prop, ([], []))
    for i, m in enumerate(quick if check.quick() else quick + more):
        given += explore(check, m, i, check.pick(250, 3000))
    trees = [dict(spec=dict(programs=race_gen.model_program(p), iso=iso, delay=0, data='N' in ' '.join(race_gen.MODEL[p])),
                  bound=q if check.quick() else th) for p, iso, q, th in TREES.get(prop, ())]
    outs = [check.work.path('race%d.ndjson' % i) for i in range(NCPU)]
    jobs = [dict(out=o, given=given[i::NCPU], trees=trees[i::NCPU] if len(trees) > 1 else [], budget_s=check.pick(25, 300))
            for i, o in enumerate(outs)]
    if given or trees:
        results = run_harness('race_run.py', jobs, check.work, timeout=900)
        harness_failed(check, results, 'schedules')
        traces = read_traces(outs)
        agree = [a for a in map(agrees, traces) if a is not None]
        check.notes['schedules_of_the_specification_replayed'] = len(agree)
        check.notes['of_them_the_code_did_exactly_what_the_specification_does'] = sum(agree)
        check.notes['all_schedules_of_small_programs'] = ['%s %s at most %d preemptions' % (
            p, iso, q if check.quick() else th) for p, iso, q, th in TREES.get(prop, ())]
        check.notes['trees_complete'] = all(r['complete'] for r in results)
        if traces:
            check.sample({'schedule of the specification executed': render(traces[0]).splitlines()})
        judge(check, traces, 'schedule')
    if check.violations:
        return
    total = count or check.pick(1600, 40000)
    start = 0
    left = budget or check.pick(12, 300)
    while total > 0:
        n = min(total, 12000)
        jobs = [dict(out=o, profile=prop, seed=check.seed, start=start + i, stride=NCPU, count=c, budget_s=left * n / float(total))
                for i, (o, c) in enumerate(zip(outs, split(n)))]
        harness_failed(check, run_harness('race_run.py', jobs, check.work, timeout=900), 'random concurrent programs')
        left -= left * n / float(total)
        total -= n
        start += NCPU * (n // NCPU + 1)
        traces = read_traces(outs)
        if start < 20000:
            check.sample({'concurrent history of the real code': render(traces[0]).splitlines()})
        judge(check, traces, 'random concurrent program')
        if check.violations:
            return
