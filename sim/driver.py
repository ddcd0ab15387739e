"""Runs many simulated executions of one property's scenario, in forked
children (one per run, so that no run sees what another left behind), finds
violations, minimises them, writes and verifies the replay file and the
evidence file.
"""
import gc
import importlib
import json
import mmap
import os
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.json')

CPU_LIMIT = 40.       # CPU seconds for one simulated run (normal: < 1)
WALL_LIMIT = 240.     # only to notice a broken simulator: never a verdict


FILE_LAYER = os.path.join(VERIF, 'sim', 'fsio.py')
# stand-ins for parts of the standard library, that raise what it raises
STAND_INS = tuple(os.path.join(VERIF, 'sim', n)
                  for n in ('procs.py', 'threads.py', 'popen.py'))
RAISED_BY_STAND_INS = (OSError, TypeError, ValueError, AssertionError,
                       RuntimeError)
# parts of the simulator that never read what the code gives
MACHINERY = ('core.py', 'driver.py', 'fsio.py', 'loader.py', 'popen.py',
             'procs.py', 'threads.py')


def load_check(pid):
    return importlib.import_module('checks.' + pid.lower())


def load_known(pid):
    try:
        with open(KNOWN) as f:
            entries = json.load(f)['findings']
    except FileNotFoundError:
        return []
    return [e for e in entries if e['property'] == pid]


def matches_known(known, kind, sig):
    for e in known:
        if e['kind'] == kind and e.get('sig') == sig:
            return e
    return None


# One run ------------------------------------------------------------------

def execute(check, pid, tier, choices, keep_trace, index):
    """Runs the scenario in this very process; returns a JSON-able dict."""
    ctx = core.Ctx(pid, tier, choices, keep_trace, index)
    res = {}
    try:
        scenarios(check, ctx)
        v = ctx.first_violation
        status = 'ok' if v is None else 'violation'
    except core.Violation as e:
        v = ctx.first_violation or e
        status = 'violation'
    except core.HarnessError as e:
        v = ctx.first_violation
        status = 'harness' if v is None else 'violation'
        res['error'] = 'HarnessError: ' + str(e) + '\n' + traceback.format_exc()
    except BaseException as e:
        v = ctx.first_violation
        if v is None:
            v = _raised_by_repo(e)
        status = 'harness' if v is None else 'violation'
        res['error'] = traceback.format_exc()
    if status == 'violation':
        res.update(kind=v.kind, msg=v.msg, sig=v.sig)
    res.update(status=status, index=index, log=ctx.log_hash(),
               sched=ctx.sched_hash(), events=ctx.n_events,
               faults=ctx.faults, probes=ctx.probes, sim_time=ctx.sim_time,
               nontrivial=ctx.nontrivial, sample=ctx.sample, known=ctx.known,
               n_choices=len(choices.log))
    if status != 'ok' or keep_trace:
        res['choices'] = choices.log
    if keep_trace:
        res['trace'] = ctx.trace
    return res


def scenarios(check, ctx):
    """One scenario, or (one run in eight) some in a row in one process, so
    that a scenario may meet what an earlier one left behind in the modules
    and classes of the system."""
    n = 1
    if getattr(check, 'AGAIN', True) and ctx.ch.draw(8) == 7:
        n = ctx.ch.between(2, 3)
        ctx.probe('scenarios-in-a-row')
    nontrivial = False
    for i in range(n):
        if i:
            ctx.event('next scenario')
            ctx.nontrivial = False
        try:
            check.run(ctx)
        finally:
            ctx.unpatch()
        nontrivial = nontrivial or ctx.nontrivial
        if ctx.first_violation is not None:
            break
    ctx.nontrivial = nontrivial


def _raised_by_repo(e):
    """An exception no scenario expects, raised by the code under test itself
    (not by the harness or something the harness injected): a violation."""
    if isinstance(e, (core.InjectedFault, core.SimCrash, MemoryError,
                      KeyboardInterrupt)):
        return None
    from . import loader, threads
    raised = RAISED_BY_STAND_INS + (threads.sim_queue.Empty,
                                    threads.sim_queue.Full)
    repo = os.path.realpath(loader.REPO) + os.sep
    code = (repo + 'task_models' + os.sep, repo + 'samples' + os.sep)
    where = None
    for f, line in traceback.walk_tb(e.__traceback__):
        name = os.path.realpath(f.f_code.co_filename)
        if name.startswith(code):
            name = name[len(repo):]
            if name.startswith('task_models' + os.sep):
                name = name[len('task_models' + os.sep):]
            where = '{}:{} {}'.format(name, line, f.f_code.co_name)
        elif name == FILE_LAYER and isinstance(e, (OSError, TypeError)):
            pass        # as the real functions raise it
        elif name in STAND_INS and isinstance(e, raised):
            pass
        elif name.startswith(VERIF + os.sep):
            where = None
    if where is None and isinstance(e, (TypeError, AttributeError)) and \
            'NoneType' in str(e):
        # nothing where the scenario was owed a result
        f, line = list(traceback.walk_tb(e.__traceback__))[-1]
        if os.path.realpath(f.f_code.co_filename).startswith(
                VERIF + os.sep):
            return core.Violation('no-result', 'the code gave nothing where a '
                                  'result was due: {} ({}:{})'.format(
                                      e, os.path.basename(
                                          f.f_code.co_filename), line))
    if where is None and isinstance(e, (KeyError, IndexError, TypeError,
                                        ValueError)):
        # what was given could not be read as what the scenario was owed
        frames = [(os.path.realpath(f.f_code.co_filename), line)
                  for f, line in traceback.walk_tb(e.__traceback__)]
        mine = [(n, line) for n, line in frames if n.startswith(VERIF + os.sep)]
        if mine and os.path.basename(mine[-1][0]) not in MACHINERY:
            return core.Violation('unreadable-result', 'the code gave '
                                  'something that is not of the form due: '
                                  '{}: {} ({}:{})'.format(
                                      type(e).__name__, e,
                                      os.path.basename(mine[-1][0]),
                                      mine[-1][1]))
    if where is None:
        return None
    return core.Violation('unexpected-exception', '{}: {} raised at {}'.format(
        type(e).__name__, e, where))


def forked_run(check, pid, tier, make_choices, keep_trace, index,
               cpu_limit=CPU_LIMIT):
    """Runs one scenario in a forked child and returns its result."""
    r, w = os.pipe()
    pid_c = os.fork()
    if pid_c == 0:
        code = 0
        try:
            os.close(r)
            choices = make_choices()

            def on_cpu_limit(signum, frame):
                stack = ''.join(traceback.format_stack(frame)[-6:])
                _send(w, {'status': 'violation', 'kind': 'no-progress',
                          'msg': 'the run does not end: {}s of processor time '
                                 'used without completing\n{}'.format(
                                     cpu_limit, stack),
                          'sig': None, 'index': index, 'log': '', 'sched': '',
                          'events': 0, 'faults': {}, 'probes': {},
                          'sim_time': 0., 'nontrivial': True, 'sample': None,
                          'known': [], 'choices': list(choices.log),
                          'n_choices': len(choices.log), 'trace': []})
                os._exit(0)

            signal.signal(signal.SIGPROF, on_cpu_limit)
            signal.setitimer(signal.ITIMER_PROF, cpu_limit)
            gc.disable()
            res = execute(check, pid, tier, choices, keep_trace, index)
            signal.setitimer(signal.ITIMER_PROF, 0)
            _send(w, res)
        except BaseException:
            try:
                sys.stderr.write(traceback.format_exc())
                sys.stderr.flush()
            except BaseException:
                pass
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    t_end = time.monotonic() + WALL_LIMIT
    timed_out = False
    while True:
        left = t_end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.kill(pid_c, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid_c, 0)
    data = b''.join(chunks)
    if timed_out or not data:
        return {'status': 'harness', 'index': index, 'error':
                'run {} gave no result ({})'.format(
                    index, 'wall limit' if timed_out else 'child died')}
    return json.loads(data.decode())


def _send(fd, obj):
    data = json.dumps(obj, default=_jsonable).encode()
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _jsonable(o):
    try:
        return o.item()
    except AttributeError:
        return repr(o)


# Many runs ----------------------------------------------------------------

class Totals:

    def __init__(self):
        self.runs = 0
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.
        self.events = 0
        self.logs = set()
        self.scheds = set()
        self.nontrivial = set()
        self.samples = []
        self.known = {}
        self.choices = 0

    def add(self, res):
        self.runs += 1
        for k, v in res['faults'].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in res['probes'].items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.sim_time += res['sim_time']
        self.events += res['events']
        self.choices += res['n_choices']
        self.logs.add(res['log'])
        self.scheds.add(res['sched'])
        if res['nontrivial']:
            self.nontrivial.add(res['log'])
        if res['sample'] is not None and len(self.samples) < 4:
            self.samples.append({'run': res['index'], 'log': res['log'],
                                 'case': res['sample']})
        for k in res['known']:
            self.known[k] = self.known.get(k, 0) + 1

    def merge(self, d):
        self.runs += d['runs']
        for k in ('faults', 'probes', 'known'):
            for n, v in d[k].items():
                getattr(self, k)[n] = getattr(self, k).get(n, 0) + v
        for k in ('sim_time', 'events', 'choices'):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ('logs', 'scheds', 'nontrivial'):
            getattr(self, k).update(d[k])
        self.samples.extend(d['samples'])

    def as_dict(self):
        d = dict(self.__dict__)
        for k in ('logs', 'scheds', 'nontrivial'):
            d[k] = sorted(d[k])
        return d


def _worker(check, pid, tier, verif_seed, n_runs, stripe, n_workers, best,
            out_fd, known, deadline):
    totals = Totals()
    found = None
    harness = []
    stopped = None
    for i in range(stripe, n_runs, n_workers):
        if i > struct.unpack('q', best[:8])[0]:
            break
        if deadline is not None and time.monotonic() > deadline:
            stopped = i
            break
        seed = core.run_seed(verif_seed, pid, i)
        res = forked_run(check, pid, tier,
                         lambda: core.Choices(seed), False, i)
        if res['status'] == 'harness':
            harness.append(res)
            if len(harness) >= 3:
                break
            continue
        if res['status'] == 'violation':
            e = matches_known(known, res['kind'], res['sig'])
            if e is not None:
                totals.add(res)
                totals.known[e['id']] = totals.known.get(e['id'], 0) + 1
                continue
            totals.add(res)
            found = res
            cur = struct.unpack('q', best[:8])[0]
            if i < cur:
                best[:8] = struct.pack('q', i)
            break
        totals.add(res)
    _send(out_fd, {'totals': totals.as_dict(), 'found': found,
                   'harness': harness[:3], 'stopped': stopped})


def run_many(check, pid, tier, verif_seed, n_runs, n_workers, known,
             wall_budget=None):
    best = mmap.mmap(-1, 8)
    best[:8] = struct.pack('q', 1 << 60)
    deadline = None if wall_budget is None else time.monotonic() + wall_budget
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(n_workers):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            code = 0
            try:
                os.close(r)
                _worker(check, pid, tier, verif_seed, n_runs, k, n_workers,
                        best, w, known, deadline)
            except BaseException:
                sys.stderr.write(traceback.format_exc())
                sys.stderr.flush()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        kids.append((p, r))
    totals = Totals()
    found, harness, stopped = [], [], []
    for p, r in kids:
        chunks = []
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        os.waitpid(p, 0)
        if not chunks:
            harness.append({'error': 'a worker died', 'index': -1})
            continue
        d = json.loads(b''.join(chunks).decode())
        totals.merge(d['totals'])
        if d['found']:
            found.append(d['found'])
        harness.extend(d['harness'])
        if d['stopped'] is not None:
            stopped.append(d['stopped'])
    found.sort(key=lambda f: f['index'])
    return totals, found, harness, stopped


# Minimisation ---------------------------------------------------------------

def shrink(check, pid, tier, res, max_runs=2500, max_wall=40.):
    """Smallest list of choices found that breaks the property the same way."""
    kind = res['kind']
    best = res
    t_end = time.monotonic() + max_wall
    used = [0]
    # (a run that does not end costs its whole allowance of processor time:
    # the caller confirms the result with the full one)
    cpu_limit = 4. if kind == 'no-progress' else 10.

    def attempt(cand):
        if used[0] >= max_runs or time.monotonic() > t_end:
            return None
        used[0] += 1
        r = forked_run(check, pid, tier, lambda: core.Choices(forced=cand),
                       False, res['index'], cpu_limit=cpu_limit)
        if r['status'] == 'violation' and r['kind'] == kind \
                and r.get('sig') == res.get('sig'):
            # what was really consumed, without trailing zeros
            c = r['choices']
            while c and c[-1] == 0:
                c.pop()
            r['choices'] = c
            return r
        return None

    def better(a, b):
        return (len(a), sum(a)) < (len(b), sum(b))

    def accept(cand):
        nonlocal best
        r = attempt(cand)
        if r is not None and better(r['choices'], best['choices']):
            best = r
            return True
        return False

    accept(list(best['choices']))
    improved = True
    while improved and used[0] < max_runs and time.monotonic() < t_end:
        improved = False
        # cut the tail
        cut = len(best['choices']) // 2
        while cut >= 1:
            if accept(best['choices'][:-cut]):
                improved = True
                cut = min(cut, len(best['choices']) // 2)
            else:
                cut //= 2
        # drop or zero chunks
        size = max(1, len(best['choices']) // 4)
        while size >= 1 and used[0] < max_runs:
            i = 0
            while i < len(best['choices']) and used[0] < max_runs:
                c = best['choices']
                if accept(c[:i] + c[i + size:]):
                    improved = True
                elif any(c[i:i + size]) and accept(
                        c[:i] + [0] * len(c[i:i + size]) + c[i + size:]):
                    improved = True
                    i += size
                else:
                    i += size
            size //= 2
        # lower values
        for i in range(len(best['choices'])):
            if i >= len(best['choices']) or used[0] >= max_runs:
                break
            c = best['choices']
            for v in (0, 1, c[i] // 2, c[i] - 1):
                if 0 <= v < c[i] and accept(c[:i] + [v] + c[i + 1:]):
                    improved = True
                    break
    return best, used[0]


def write_replay(pid, verif_seed, tier, res, trace_res, n_shrink):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '{}-seed{}-run{}.json'.format(
        pid, verif_seed, res['index']))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'kind': res['kind'], 'message': res['msg'],
                   'sig': res.get('sig'), 'verif_seed': verif_seed,
                   'tier': tier, 'run_index': res['index'],
                   'choices': res['choices'], 'log_hash': trace_res.get('log'),
                   'shrink_runs': n_shrink,
                   'trace': trace_res.get('trace', [])}, f, indent=1)
    return path


def replay_file(path, verbose=True):
    """Runs a replay file in this fresh process. Exit 1 iff it reproduces."""
    with open(path) as f:
        d = json.load(f)
    check = load_check(d['property'])
    check.setup()
    res = forked_run(check, d['property'], d['tier'],
                     lambda: core.Choices(forced=d['choices']), True,
                     d['run_index'])
    same = (res['status'] == 'violation' and res['kind'] == d['kind'] and
            (d['kind'] == 'no-progress' or d['log_hash'] is None or
             res['log'] == d['log_hash']))
    if verbose:
        for line in res.get('trace') or []:
            print('  ' + line)
        print('status={} kind={} msg={}'.format(
            res['status'], res.get('kind'), res.get('msg', res.get('error'))))
        print('reproduced exactly' if same else 'NOT reproduced')
    return 1 if same else 0


def hashes(pid, n):
    """Prints the event-log and schedule hash of the first n runs."""
    check = load_check(pid)
    check.setup()
    for i in range(n):
        seed = core.run_seed(int(os.environ.get('VERIF_SEED', '1')), pid, i)
        r = forked_run(check, pid, 'quick', lambda: core.Choices(seed), False,
                       i)
        print(i, r['status'], r.get('log'), r.get('sched'), r.get('events'))
    return 0


# Entry point ------------------------------------------------------------------

def main(argv):
    if argv and argv[0] == 'replay':
        return replay_file(argv[1])
    if argv and argv[0] == 'hashes':
        return hashes(argv[1], int(argv[2]))
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    verif_seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.monotonic()
    try:
        check = load_check(pid)
        check.setup()
    except BaseException:
        # The code under test does not even load under the simulator.
        traceback.print_exc()
        print('ERROR property={} the harness could not be set up'.format(pid))
        return 2
    known = load_known(pid)
    n_runs = int(os.environ.get('VERIF_RUNS') or check.RUNS[tier])
    n_workers = int(os.environ.get('VERIF_WORKERS') or
                    min(8, os.cpu_count() or 1))
    budget = {'quick': 400., 'thorough': None}[tier]
    if os.environ.get('VERIF_WALL'):
        budget = float(os.environ['VERIF_WALL'])
    t1 = time.monotonic()
    totals, found, harness, stopped = run_many(
        check, pid, tier, verif_seed, n_runs, n_workers, known, budget)
    t_runs = time.monotonic() - t1
    code = 0
    replay_path = None
    verified = None
    if found:
        res = found[0]
        small, n_shrink = shrink(check, pid, tier, res)
        tr = forked_run(check, pid, tier,
                        lambda: core.Choices(forced=small['choices']), True,
                        small['index'])
        if not (tr['status'] == 'violation' and tr['kind'] == small['kind']):
            small = res
            tr = forked_run(check, pid, tier,
                            lambda: core.Choices(forced=res['choices']), True,
                            res['index'])
        elif tr['kind'] != 'no-progress':
            small = dict(small, msg=tr['msg'])
        replay_path = write_replay(pid, verif_seed, tier, small, tr, n_shrink)
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'),
                            'replay', replay_path], capture_output=True)
        verified = p.returncode == 1
        print('property {} broken in simulated run {} (seed {}): {}\n{}'.format(
            pid, res['index'], verif_seed, small['kind'], small['msg']))
        print('minimised to {} choices from {} in {} runs; fresh-process '
              'replay: {}'.format(
                  len(small['choices']), len(res['choices']), n_shrink,
                  'reproduced exactly' if verified else 'NOT reproduced'))
        print('VIOLATION property={} replay={}'.format(pid, replay_path))
        code = 1
    elif harness:
        for h in harness[:3]:
            print('harness error in run {}: {}'.format(
                h.get('index'), h.get('error')))
        print('ERROR property={} {} run(s) could not be judged'.format(
            pid, len(harness)))
        code = 2
    elif stopped and totals.runs < min(n_runs, 100):
        print('ERROR property={} only {} of {} runs within the wall budget'
              .format(pid, totals.runs, n_runs))
        code = 2
    elif stopped:
        # a slow machine: fewer runs, reported as such in the evidence
        print('NOTE wall budget: {} of {} runs done'.format(
            totals.runs, n_runs))
        n_runs = min(stopped)
    missing_known = []
    for e in known:
        if code != 1:
            print('KNOWN-FINDING: property={} {}'.format(pid, e['what']))
            if e['id'] not in totals.known:
                missing_known.append(e['id'])
    # How far the search reached, and whether replays are exact.
    mismatch = 0
    resampled = 0
    if code == 0:
        for i in range(0, n_runs, max(1, n_runs // 6)):
            a = forked_run(check, pid, tier, lambda: core.Choices(
                core.run_seed(verif_seed, pid, i)), True, i)
            if a['status'] == 'harness':
                continue
            b = forked_run(check, pid, tier, lambda: core.Choices(
                forced=a['choices']), True, i)
            resampled += 1
            if (a['log'], a['sched']) != (b.get('log'), b.get('sched')) \
                    or a['log'] not in totals.logs:
                mismatch += 1
    wall = time.monotonic() - t0
    coverage = {
        'evaluations': totals.runs,
        'distinct_nontrivial': len(totals.nontrivial),
        'rule': check.RULE,
        'samples': totals.samples[:4],
        'simulated_runs_per_hour': int(totals.runs / max(t_runs, 1e-9) * 3600),
        'seeds_per_hour': int(totals.runs / max(t_runs, 1e-9) * 3600),
        'simulated_time_s': round(totals.sim_time, 3),
        'events': totals.events,
        'choices_drawn': totals.choices,
        'faults_injected': dict(sorted(totals.faults.items())),
        'probes': dict(sorted(totals.probes.items())),
        'probes_never_hit': sorted(set(getattr(check, 'PROBES', ())) -
                                   set(totals.probes)),
        'faults_never_fired': sorted(set(getattr(check, 'FAULTS', ())) -
                                     set(totals.faults)),
        'distinct_event_histories': len(totals.logs),
        'distinct_interleavings': len(totals.scheds),
        'distinctness_measure': 'hash of the full event log of the run '
        '(histories); hash of the sequence of scheduling decisions '
        '(interleavings)',
        'components': check.COMPONENTS,
        'replay_self_check': {'runs': resampled, 'mismatches': mismatch},
        'known_findings_hit': totals.known,
        'harness_errors': len(harness),
        'workers': n_workers,
    }
    if replay_path:
        coverage['replay'] = {'path': replay_path,
                              'reproduced_in_fresh_process': verified}
    ev = {'property': pid, 'tier': tier, 'seed': verif_seed,
          'level': 'exploration', 'coverage': coverage,
          'assumptions': check.ASSUMPTIONS, 'wall_s': round(wall, 2),
          'violations': len(found)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=_jsonable)
    if totals.probes.get('undecided'):
        print('UNDECIDED: {} runs ended early, at something that the '
              'simulation lacks (not a violation)'.format(
                  totals.probes['undecided']))
    if code == 0:
        print('property {} held on {} simulated runs ({} distinct histories, '
              '{} distinct interleavings, {:.0f}s simulated, faults {}) in '
              '{:.1f}s'.format(pid, totals.runs, len(totals.logs),
                               len(totals.scheds), totals.sim_time,
                               sum(totals.faults.values()), wall))
    return code
