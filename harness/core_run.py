"""core_run.py JOB.json: generates histories (or replays given ones) against the real library and writes them,
with what was observed, as one JSON object per line."""
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time as _t

import venv_env
from venv_env import real_time, real_thread_start
import world
import gen
import profiles

WORK = tempfile.mkdtemp(prefix='verif-fork-')
HANG = 20     # seconds without any progress
current = {}


def make(cfg, nsess, names, wiring):
    if wiring != 'fork':
        return world.World(cfg, nsess, names, wiring)
    import forkworld
    return forkworld.ForkWorld(cfg, nsess, names, wiring, WORK)


def run_one(spec, f):
    """spec: {'profile':..., 'seed':...} or a full trace {'cfg','nsess','names','wiring','ev'}"""
    if 'ev' in spec:
        head = dict((k, v) for k, v in spec.items() if k != 'ev')
        w = make(spec['cfg'], spec['nsess'], spec['names'], spec.get('wiring', 'django'))
        current.update(w=w, head=head, f=f)
        for e in spec['ev']:
            e = dict(e)
            e.pop('obs', None)
            obs = w.run(e)
            if isinstance(obs, str) and obs.startswith('EXC:'):
                break
    else:
        g = gen.Gen(random.Random(spec['seed']), profiles.PROFILES[spec['profile']])
        head = dict(cfg=g.cfg, nsess=g.nsess, names=g.names, wiring=g.wiring, profile=spec['profile'], seed=spec['seed'])
        w = make(g.cfg, g.nsess, g.names, g.wiring)
        current.update(w=w, head=head, f=f)
        g.history(w.run)
    current.clear()
    w.close()
    f.write(json.dumps(dict(head, ev=w.log)) + '\n')


def watchdog():
    last, since = None, real_time()
    while True:
        world.venv_env._sleep(1)
        w = current.get('w')
        mark = (id(w), len(w.log) if w else 0)
        if w is None or mark != last:
            last, since = mark, real_time()
        elif real_time() - since > HANG:
            f = current['f']
            f.write(json.dumps(dict(current['head'], ev=w.log)) + '\n')
            f.flush()
            print(json.dumps({'n': -1, 'hang': True}))
            sys.stdout.flush()
            shutil.rmtree(WORK, ignore_errors=True)
            os._exit(0)


def main():
    job = json.load(open(sys.argv[1]))
    t0 = real_time()
    n = 0
    t = threading.Thread(target=watchdog)
    t.daemon = True
    real_thread_start(t)
    with open(job['out'], 'w') as f:
        if 'replay' in job:
            for line in open(job['replay']):
                run_one(json.loads(line), f)
                n += 1
        else:
            i = 0
            while n < job['count'] and real_time() - t0 < job['budget_s']:
                run_one({'profile': job['profile'],
                         'seed': job['seed'] * 1000003 + job['start'] + i * job['stride']}, f)
                i += 1
                n += 1
    print(json.dumps({'n': n, 'wall': real_time() - t0}))
    sys.stdout.flush()
    shutil.rmtree(WORK, ignore_errors=True)
    os._exit(0)


main()
