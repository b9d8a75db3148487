"""Common part of the harness scripts of the separate parts."""
import json
import os
import random
import sys

import venv_env
from venv_env import real_time


def name_of(e):
    return 'EXC:%s:%s' % (type(e).__name__, str(e)[:150])


def main(kind, generate, execute):
    """generate(r, prop) -> (hdr, events); execute(hdr, events) -> observations (lists of strings)"""
    job = json.load(open(sys.argv[1]))
    t0 = real_time()
    n = 0
    with open(job['out'], 'w') as f:
        def put(hdr, ev, extra):
            obs = execute(hdr, ev)
            ev = [dict(e, obs=o) for e, o in zip(ev, obs)]
            f.write(json.dumps(dict(extra, kind=kind, hdr=hdr, ev=ev)) + '\n')
        for i, x in enumerate(job.get('given', ())):
            r = random.Random('%s-%s' % (job.get('seed', 0), i))
            ev = [dict(e, f=e['f'] if 'f' in e else r.randint(0, 9999)) for e in x['ev']]
            extra = {'want': x['want']} if 'want' in x else {}
            put(x.get('hdr') or generate(r, job.get('prop'), hdr_only=True), ev, extra)
            n += 1
        i = 0
        while i < job.get('count', 0) and real_time() - t0 < job['budget_s']:
            seed = job['seed'] * 1000003 + job['start'] + i * job['stride']
            hdr, ev = generate(random.Random(seed), job.get('prop'))
            put(hdr, ev, {'seed': seed})
            i += 1
            n += 1
    print(json.dumps({'n': n}))
    sys.stdout.flush()
    os._exit(0)
