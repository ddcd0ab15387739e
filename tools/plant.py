"""Validates planted bugs in a scratch copy of /repo and runs the checks on
them.  Usage: plant.py [--no-check] [--all-checks] ID...   (default: all)

A bug is seeded/<id>/{patch.diff,demo.sh,meta.json}.  Nothing here touches
/repo itself; the scratch copy is removed at the end.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.pop('PYTHONPATH', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return p.returncode, p.stdout + p.stderr


def stable_tests(repo):
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'] if isinstance(base.get('stable'), list)
               else base['stable'].keys())
    out = os.path.join(repo, '..', 'junit.xml')
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'seed_rng',
        '--timeout=300', '--continue-on-collection-errors', '-W', 'ignore',
        '-o', 'junit_family=xunit2', '--junitxml=' + out, 'tests'], repo,
       {'PYTHONPATH': '/opt/vp/plugins:' + repo, 'PYTHONHASHSEED': '0',
        'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1'})
    passed = set()
    for c in ET.parse(out).getroot().iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
            passed.add(c.get('classname') + '::' + c.get('name'))
    return sorted(want - passed)


def demo(repo, bug):
    d = tempfile.mkdtemp(prefix='demo-')
    try:
        for n in os.listdir(os.path.join(SEEDED, bug)):
            if n == '__pycache__':
                continue
            if not n.endswith(('.diff', '.patch')) and n != 'meta.json':
                shutil.copy(os.path.join(SEEDED, bug, n), d)
        return sh(['bash', os.path.join(d, 'demo.sh')], repo,
                  {'DEMO_TEST': '1', 'MPLBACKEND': 'Agg'}, 300)
    finally:
        shutil.rmtree(d)


def main(args):
    no_check = '--no-check' in args
    ids = [a for a in args if not a.startswith('-')] or sorted(
        os.listdir(SEEDED))
    top = tempfile.mkdtemp(prefix='plant-')
    repo = os.path.join(top, 'repo')
    bad = []
    try:
        shutil.copytree(os.environ.get('PLANT_FROM', '/repo'), repo, symlinks=True)
        for bug in ids:
            meta = json.load(open(os.path.join(SEEDED, bug, 'meta.json')))
            pid = meta['property']
            patch = os.path.join(SEEDED, bug, 'patch.diff')
            sh(['git', 'checkout', '-q', '--', '.'], repo)
            say = [bug]
            c, o = demo(repo, bug)
            if c != 0:
                say.append('DEMO FAILS ON CLEAN TREE ' + o[-1500:])
            c, o = sh(['git', 'apply', patch], repo)
            if c != 0:
                print(bug, 'DOES NOT APPLY', o)
                bad.append(bug)
                continue
            c, o = demo(repo, bug)
            if c == 0:
                say.append('DEMO PASSES WITH THE BUG')
            missing = stable_tests(repo)
            if missing:
                say.append('TESTS FAIL {}'.format(missing[:3]))
            if len(say) > 1:
                bad.append(bug)
            if not no_check:
                c, o = sh([sys.executable, os.path.join(HERE, 'run.py'), pid,
                           'quick'], HERE, {'VERIF_REPO': repo,
                                            'VERIF_SEED': '1'})
                hit = [l for l in o.splitlines() if l.startswith(
                    'VIOLATION property={} '.format(pid))]
                if c == 1 and hit:
                    say.append('caught: ' + ' | '.join(
                        l[:110] for l in o.splitlines()
                        if 'broken in simulated run' in l or
                        'minimised' in l))
                else:
                    say.append('MISSED (exit {}) {}'.format(
                        c, o.strip()[-300:]))
            print('  '.join(say), flush=True)
            sh(['git', 'checkout', '-q', '--', '.'], repo)
    finally:
        shutil.rmtree(top)
    print(len(ids), 'bugs,', len(bad), 'invalid', bad)


main(sys.argv[1:])
