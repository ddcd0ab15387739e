"""setup_cmd: nothing to build, but fail early if the simulator cannot load."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
code = ('import sys; sys.path.insert(0, {!r}); sys.dont_write_bytecode = True; '
        'from sim import loader; loader.load(); print("simulator loads")'
        .format(HERE))
py = '/opt/venv/bin/python'
sys.exit(subprocess.call([py if os.path.exists(py) else sys.executable, '-B',
                          '-c', code], env=dict(os.environ,
                                                MPLBACKEND='Agg')))
