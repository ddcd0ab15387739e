"""python run.py <property> [quick|thorough]  |  python run.py replay FILE"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
WANT = {'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'),
        'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'VERIF_REEXEC': '1'}
if os.environ.get('VERIF_REEXEC') != '1' or \
        os.environ.get('PYTHONHASHSEED') != WANT['PYTHONHASHSEED']:
    env = dict(os.environ)
    env.update(WANT)
    for k in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP', 'PYTHONOPTIMIZE',
              'PYTHONWARNINGS'):
        env.pop(k, None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
from sim import driver  # noqa: E402
sys.exit(driver.main(sys.argv[1:]))
