"""Proof of determinism: the same seeds give the same event logs and the same
schedules in different processes, under different PYTHONHASHSEED values, with
several processes running at once.

    python3 selftest.py [runs per property] [property ...]
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    n = sys.argv[1] if len(sys.argv) > 1 else '200'
    pids = sys.argv[2:] or [c['property'] for c in json.load(
        open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
    bad = 0
    for pid in pids:
        outs = []
        ps = []
        for hs, seed in (('0', '1'), ('4242', '1'), ('0', '1'), ('17', '1'),
                         ('0', '77'), ('99', '77')):
            env = dict(os.environ, VERIF_HASHSEED=hs, VERIF_SEED=seed)
            env.pop('VERIF_REEXEC', None)
            env.pop('PYTHONHASHSEED', None)
            ps.append((seed, subprocess.Popen(
                [sys.executable, os.path.join(HERE, 'run.py'), 'hashes', pid,
                 n], env=env, stdout=subprocess.PIPE)))
        for seed, p in ps:
            outs.append((seed, p.communicate()[0]))
        for seed in ('1', '77'):
            same = len(set(o for s, o in outs if s == seed)) == 1
            lines = outs[0][1].count(b'\n')
            print('{} seed {}: {} runs, {}'.format(
                pid, seed, lines, 'identical' if same else 'DIFFERENT'))
            if not same:
                a, b = [o.splitlines() for s, o in outs if s == seed][:2]
                print([x for x in zip(a, b) if x[0] != x[1]][:3])
            bad += not same or lines != int(n)
    return 1 if bad else 0


sys.exit(main())
