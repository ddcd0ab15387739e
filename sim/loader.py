"""Imports the code under test (from /repo's working tree) over simulated
modules, and applies the other seams: subprocess, cpu counts, finalisers.
"""
import importlib
import os
import shutil
import sys
import tempfile
import types
import warnings

from . import threads
from .core import HarnessError

REPO = os.environ.get('VERIF_REPO', '/repo')
_done = None
unraisable = []


def scratch():
    """Scratch directory of this process tree, removed by its creator."""
    return _scratch


_scratch = None


def _make_scratch():
    global _scratch
    import atexit
    _scratch = tempfile.mkdtemp(prefix='simverif-')
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(_scratch, ignore_errors=True)

    atexit.register(clean)


class Launcher(object):
    """Stands for the launcher of the package expjobs: what it is asked to
    run is left to the scenario."""

    on_run = None

    def run(self):
        if Launcher.on_run is None:
            raise HarnessError('a launcher is run outside a scenario')
        Launcher.on_run(self)


class Job(object):

    def __init__(self, path, name, script):
        self.path, self.name, self.script = path, name, script

    @property
    def config(self):
        return os.path.join(self.path, self.name + '.config')


expjobs_modules = {}


def load():
    """Returns a namespace with the modules of task_models."""
    global _done
    if _done is not None:
        return _done
    warnings.simplefilter('ignore')
    _make_scratch()
    # A solver executable must exist for POMDP objects to be built; it is
    # never run: starting a process goes through the simulated Popen.
    bin_dir = os.path.join(_scratch, 'bin')
    os.mkdir(bin_dir)
    exe = os.path.join(bin_dir, 'pomdp-solve')
    with open(exe, 'w') as f:
        f.write('#!/bin/sh\nexit 99\n')
    os.chmod(exe, 0o755)
    os.environ['PATH'] = bin_dir + os.pathsep + os.environ.get('PATH', '')
    os.environ['MPLCONFIGDIR'] = os.path.join(_scratch, 'mpl')
    os.mkdir(os.environ['MPLCONFIGDIR'])
    # Imported for real beforehand: not under test.
    for n in ('numpy', 'numpy.random', 'json', 'logging', 'argparse', 'queue',
              'subprocess', 'tempfile', 'matplotlib', 'io', 'datetime',
              'multiprocessing', 'distutils', 'distutils.spawn', 'itertools',
              'collections', 'copy', 'functools', 'math', 'random'):
        importlib.import_module(n)
    from . import popen, procs
    popen.install()
    expjobs = types.ModuleType('expjobs')
    helpers = types.ModuleType('expjobs.helpers')

    job = types.ModuleType('expjobs.job')
    helpers.Launcher = Launcher
    job.Job = Job
    expjobs.helpers, expjobs.job = helpers, job
    expjobs_modules.update({'expjobs': expjobs, 'expjobs.helpers': helpers,
                            'expjobs.job': job})
    window = {'threading': threads.sim_threading,
              '_thread': threads.sim_thread_module,
              'time': threads.sim_time,
              'queue': threads.sim_queue,
              'multiprocessing': procs.sim_multiprocessing,
              }
    window.update(expjobs_modules)
    for m in list(sys.modules):
        if m == 'task_models' or m.startswith('task_models.'):
            raise HarnessError('task_models is already imported')
    sys.path.insert(0, REPO)
    saved = {k: sys.modules.get(k) for k in window}
    ns = types.SimpleNamespace()
    try:
        sys.modules.update(window)
        for name, attr in (
                ('lib.utils', 'utils'), ('lib.pomdp', 'pomdp'),
                ('lib.belief', 'belief'), ('lib.pomcp', 'pomcp'),
                ('state', 'state'), ('action', 'action'), ('task', 'task'),
                ('snap_circuit', 'snap_circuit'),
                ('supportive', 'supportive'), ('policy', 'policy'),
                ('task_to_pomdp', 'task_to_pomdp'),
                ('bring_next_to_pomdp', 'bring_next'),
                ('hold_and_release', 'hold_and_release'),
                ('tower_problem', 'tower_problem'),
                ('utils.multiprocess', 'multiprocess'),
                ('evaluation', 'evaluation'),
                ('stool_scenarios', 'stool_scenarios'),
                ('json_to_htm', 'json_to_htm')):
            setattr(ns, attr, importlib.import_module('task_models.' + name))
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    import task_models
    got = os.path.realpath(os.path.dirname(task_models.__file__))
    want = os.path.realpath(os.path.join(REPO, 'task_models'))
    if got != want:
        raise HarnessError('imported {} instead of {}'.format(got, want))
    threads.set_repo_prefix(want)
    sys.unraisablehook = lambda u: unraisable.append(u.exc_value)
    import logging
    logging.disable(logging.CRITICAL)
    _done = ns
    return ns
