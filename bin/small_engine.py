"""Engine of the specifications of the separate parts (Adapter, Deferred, NoCache, FileStore): exhaustive model with
invariants, its histories executed by the real code, random histories of the real code validated by TLC."""
import json
import os
import random
import re

from vlib import run_tlc, run_harness, tlc_ok, marked, split, NCPU, MachineryError
from core_engine import read_traces, harness_failed, show


def report(check, t, l, want, origin):
    e = t['ev'][l - 1]
    text = '%s: event %d (%s): the specification prescribes %s, the real code gave %s\n%s\n%s' % (
        origin, l, e['op'], json.dumps(want)[:600], json.dumps(e['obs'])[:600], json.dumps(t['hdr'])[:1500],
        '\n'.join('%3d. %s' % (i + 1, show(x)[:1500]) for i, x in enumerate(t['ev'][:l])))
    check.violation(text, dict(kind=t['kind'], trace=dict(t, ev=t['ev'][:l]), want=want))


TOKEN = re.compile(r'\[L\d+\.(\d+)\]')


def site_kinds(t, l, want):
    """Does the real output show something older than prescribed ('stale'), or newer ('lost')?"""
    def tokens(obs):
        return [int(n) for o in obs for n in TOKEN.findall(str(o))]
    obs = t['ev'][l - 1]['obs']
    if any(str(o).startswith(('EXC:', 'x:', '=?')) for o in obs):
        return {'exc'}
    before = max([0] + [n for e in t['ev'][:l - 1] for n in tokens(e['obs'])])
    if t['ev'][l - 1]['op'] == 'get':
        return {'stale'} if want == ['None'] else {'lost'} if obs == ['None'] else {'wrong'}
    new, ref = [len(set(n for n in tokens(x) if n > before)) for x in (obs, want)]
    return {'stale'} if new < ref else {'lost'} if new > ref else {'wrong'}


def validate(check, name, traces, origin, kinds=None):
    if not traces:
        return
    path = check.work.path('small.ndjson')
    with open(path, 'w') as f:
        for i, t in enumerate(traces):
            f.write(json.dumps(dict(id=i, hdr={k: v for k, v in t['hdr'].items() if k != 'names'} if isinstance(t['hdr'], dict) else t['hdr'], ev=t['ev'])) + '\n')
    res = tlc_ok(run_tlc('Trace%s.tla' % name, 'Trace%s.cfg' % name, check.work, env={'TRACES': path}, tag='small'), name)
    os.unlink(path)
    check.add_tlc(res, 'Trace' + name)
    check.cov['traces_validated_against_impl'] += len(traces)
    check.count('events_validated', sum(len(t['ev']) for t in traces))
    found = sorted((d['l'], d['tr'], d['want']) for d in marked(res['out'], 'DIVERGED'))
    if kinds:
        mine = [x for x in found if site_kinds(traces[x[1]], x[0], x[2]) & kinds]
        check.count('divergences_of_other_properties', len(found) - len(mine))
        found = mine
    for l, tr, want in found[:3]:
        report(check, traces[tr], l, want, origin)


def explore(check, name, index, m):
    cfg = check.work.path('small%d.cfg' % index)
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n')
        for k, v in m['const'].items():
            f.write(' %s = %s\n' % (k, v[check.tier] if isinstance(v, dict) else v))
        f.write(' ExportMod = %s\n Seed = %d\n' % (m['mod'][check.tier], check.seed))
        f.write('INVARIANTS %s Exported\n' % m['inv'])
    name = m.get('module', name)
    res = run_tlc('MC%s.tla' % name, cfg, check.work, tag='small%d' % index, timeout=880)
    if res['rc'] != 0:
        raise MachineryError('MC%s: the specification does not satisfy %s\n%s' % (name, m['inv'], res['out'][max(0, res['out'].find('Error')):][:3000]))
    check.add_tlc(res, 'MC%s %s' % (name, m['const']))
    return sorted(marked(res['out'], 'LOG'), key=lambda x: json.dumps(x, sort_keys=True))


def engine(name, script, models, quick=2400, thorough=60000, budget=(14, 400), limit=(600, 8000), kinds=None):
    def run(check):
        logs = []
        for i, m in enumerate(models):
            if m.get('only', check.tier) != check.tier:
                continue
            got = explore(check, name, i, m)
            n = check.pick(*limit)
            logs += got if len(got) <= n else random.Random('%d-%d' % (check.seed, i)).sample(got, n)
        if logs:
            check.sample({'history of the specification': [show(e) for e in logs[0]['ev']]})
            outs = [check.work.path('exp%d.ndjson' % i) for i in range(NCPU)]
            jobs = [dict(out=o, given=logs[i::NCPU], seed=check.seed + i, prop=check.prop) for i, o in enumerate(outs)]
            harness_failed(check, run_harness(script, jobs, check.work, timeout=900), 'replay')
            done = read_traces(outs)
            check.count('histories_of_the_specification_replayed', len(done))
            check.cov['traces_validated_against_impl'] += len(done)
            bad = []
            for t in done:
                for l, e in enumerate(t['ev']):
                    if 'want' in t and sorted(t['want'][l]) != sorted(e['obs']):
                        if kinds and not site_kinds(t, l + 1, t['want'][l]) & kinds:
                            check.count('divergences_of_other_properties')
                        else:
                            bad.append((l + 1, len(bad), t))
                        break
            for l, _, t in sorted(bad, key=lambda x: x[:2])[:2]:
                report(check, t, l, t['want'][l - 1], 'history exported from the specification')
        if check.violations:
            return
        total, left, start = check.pick(quick, thorough), check.pick(*budget), 0
        while total > 0:
            n = min(total, 12000)
            outs = [check.work.path('rand%d.ndjson' % i) for i in range(NCPU)]
            jobs = [dict(out=o, seed=check.seed, start=start + i, stride=NCPU, count=c, budget_s=left * n / float(total),
                         prop=check.prop) for i, (o, c) in enumerate(zip(outs, split(n)))]
            harness_failed(check, run_harness(script, jobs, check.work, timeout=900), 'random histories')
            left -= left * n / float(total)
            total -= n
            start += NCPU * (n // NCPU + 1)
            traces = read_traces(outs)
            for t in traces[:1]:
                check.sample({'history of the real code': [show(e)[:400] for e in t['ev'][:25]]})
            validate(check, name, traces, 'random history', kinds)
            if check.violations:
                return
    return run


def M(inv, mod, module=None, **const):
    return dict({'module': module} if module else {}, inv=inv, mod=dict(zip(('quick', 'thorough'), mod)),
                const={k: dict(zip(('quick', 'thorough'), v)) if isinstance(v, tuple) else v for k, v in const.items()})


ADAPTER = engine('Adapter', 'adapter_run.py', [
    M('C28 C28b C28c', (400, 20000), MaxLen=(4, 5), Ops='{"set","bulk","tick"}'),
    M('C28 C28b C28c', (400, 20000), MaxLen=(3, 4), Ops='{"set","count","move","tick"}'),
    M('C28 C28b C28c', (100, 10000), MaxLen=(4, 5), Ops='{"set","move","in"}'),
    M('C28 C28b C28c', (10, 3000), MaxLen=(3, 4), Ops='{"get","set","del","bulk","count","move","in","tick"}')])
DEFERRED = engine('Deferred', 'deferred_run.py', [
    M('C20 C20b C20c', (60, 4000), MaxLen=(6, 7), NObj=2, Crits='{1,2}', MaxNest=0, WithStore='FALSE'),
    M('C20 C20b C20c', (60, 4000), MaxLen=(6, 7), NObj=1, Crits='{1,0}', MaxNest=2, WithStore='TRUE'),
    M('C20 C20b C20c', (60, 4000), MaxLen=(5, 6), NObj=3, Crits='{1,3}', MaxNest=1, WithStore='FALSE')], quick=4000)
NOCACHE = engine('NoCache', 'nocache_run.py', [
    M('C23', (1, 30), MaxTok=(3, 5), MaxLen=1, Mode='"handle"'),
    M('C23b', (30, 30), MaxTok=(2, 3), MaxLen=3, Mode='"serve"')])
FILE = engine('FileStore', 'file_run.py', [
    M('C27 C27b', (100, 5000), MaxLen=(4, 5), Ops='{"set","get","tick"}'),
    M('C27 C27b', (100, 5000), MaxLen=(4, 5), Ops='{"add","has","del","wipe"}'),
    M('C27 C27b', (0, 0), MaxLen=(3, 4), Ops='{"set","get","add","del","crash","wipe","tick"}'),
    M('Whole ReadWhole Landed', (0, 0), module='FileSteps', Writers=('{1, 2}', '{1, 2, 3}'), Blocks=(4, 5), InPlace='FALSE')],
    quick=3000, thorough=40000)


def site(*models, **kw):
    return engine('Site', 'site_run.py', list(models), **kw)


RC, RR = '"READ COMMITTED"', '"REPEATABLE READ"'
STALE = {'stale', 'wrong', 'exc'}
SITE = dict(
    C21=site(M('C21 C21t C21b C21c', (40, 100), MaxLen=(5, 6), Mode='"frag"', Iso2=RC),
             M('C21 C21b C21c C25', (60, 300), MaxLen=(5, 6), Mode='"mix"', Iso2=RC), quick=1600),
    C22=site(M('C21 C21b C21c C22 C24b', (60, 200), MaxLen=(5, 6), Mode='"prev"', Iso2=RC), quick=1600),
    C24=site(M('C24 C24b C24c', (60, 300), MaxLen=(4, 5), Mode='"page"', Iso2=RC),
             M('C24 C24b C24c', (60, 300), MaxLen=(5, 6), Mode='"vary"', Iso2=RC), quick=1600),
    C25=site(M('C21 C24 C24b C25', (60, 200), MaxLen=(5, 6), Mode='"both"', Iso2=RC), quick=1600, kinds=STALE),
    C17=site(M('C17 C17b', (60, 300), MaxLen=(4, 5), Mode='"tx"', Iso2=RR), quick=800, budget=(8, 200)),
    C26=site(M('C26 C26b', (60, 300), MaxLen=(4, 5), Mode='"model"', Iso2=RR),
             M('C26 C26b', (60, 300), MaxLen=(4, 5), Mode='"model"', Iso2=RC), quick=1600))
INVARIANTS = dict(C21='C21 C21t C21b C21c C25', C22='C21 C21b C21c C22 C24b', C24='C24 C24b C24c', C25='C21 C24 C24b C25',
                  C17='C17 C17b', C26='C26 C26b')
