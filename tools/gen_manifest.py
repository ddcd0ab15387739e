"""Regenerates MANIFEST.json from the check modules present."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}
LEVEL_NOTE = (
    'Seeded search over simulated executions, not a proof: a clean batch is '
    'evidence for the schedules, histories and faults sampled. Trusted: the '
    'simulator and the oracle in /verif, CPython, numpy. Every violation is '
    'minimised and replayed in a fresh process. ')


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE,
                                                      'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        path = os.path.join(HERE, 'checks', pid.lower() + '.py')
        if pid in NOT_APPLICABLE:
            na.append({'property': pid, 'reason': NOT_APPLICABLE[pid]})
        elif os.path.exists(path):
            vals = {}
            for node in ast.parse(open(path).read()).body:
                if isinstance(node, ast.Assign) and \
                        isinstance(node.targets[0], ast.Name) and \
                        node.targets[0].id in ('TECHNIQUE', 'NOTE'):
                    vals[node.targets[0].id] = ast.literal_eval(node.value)
            checks.append({
                'property': pid,
                'quick_cmd': 'python3 run.py {} quick'.format(pid),
                'thorough_cmd': 'python3 run.py {} thorough'.format(pid),
                'evidence_file': 'evidence/{}.json'.format(pid),
                'technique': vals.get(
                    'TECHNIQUE', 'deterministic simulation with fault '
                    'injection, seeded search'),
                'level': 'exploration',
                'level_note': LEVEL_NOTE + vals.get('NOTE', '')})
        else:
            na.append({'property': pid, 'reason':
                       'check not built yet'})
    json.dump({'version': 1,
               'setup_cmd': 'python3 tools/setup.py',
               'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: every seam is an import, an '
               'argument or a module attribute the code already has.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
