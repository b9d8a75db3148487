"""Known findings: every entry of KNOWN_FINDINGS.json which is not fixed names one history; it is replayed in the real
code, and reported as KNOWN-FINDING as long as it fails.  Nothing else is excused by it."""
import json
import os

from vlib import VERIF, run_harness
from core_engine import read_traces, harness_failed
from race_engine import render


def entries():
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.json')) as f:
        return json.load(f)


def fails(check, e):
    h = e['history']
    out = check.work.path('finding.ndjson')
    job = dict(out=out, budget_s=60, given=[dict(programs=h['programs'], iso=h['iso'], delay=h['delay'], data=True,
                                                 sched=h['schedule'])])
    harness_failed(check, run_harness('race_run.py', [job], check.work, timeout=120), 'known finding')
    t = read_traces([out])[0]
    saves = [x['val'] for x in t['h'] if x['op'] == 'save' and x['s'] == h['save_of']]
    reads = [x for x in t['h'] if x['op'] == 'read' and x['s'] == h['read_of'] and x['out'] in saves]
    check.notes.setdefault('known_findings_replayed', []).append(render(t).splitlines())
    return bool(reads)


def run(check):
    for e in entries():
        if e['property'] == check.prop and e['status'] == 'known' and fails(check, e):
            check.known.append('%s (%s)' % (e['what'], e['id']))
