"""Runs the tasks of a check in parallel worker processes, replays counterexamples natively and writes the evidence."""
import contextlib
import io
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'        # always compile what is in the working tree now
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import symx  # noqa: E402


def load_code():
    import dynetworkx
    import dynetworkx.algorithms.count_temporal_motif   # noqa: F401
    assert os.path.abspath(dynetworkx.__file__).startswith(os.path.abspath(REPO) + os.sep), dynetworkx.__file__
    return dynetworkx


HARNESS_MODULES = ('h_graph', 'h_snap', 'h_text', 'h_motif')


def harness(name):
    mod, fn = name.split('.')
    f = getattr(__import__(mod), fn)

    def call(env, reals=False, **p):      # reals: all times are real numbers, not only where the harness says so
        env.reals = reals
        return f(env, **p)
    return call


# ------------------------------------------------------------------------------------------------ shadow builtins

class Shadows(object):
    """The builtins which the code under test sees while it is executed symbolically."""

    def __init__(self, text=False):
        import builtins
        names = {'max': symx.sym_max, 'min': symx.sym_min, 'type': symx.sym_type}
        if text:
            names.update({'int': symx.sym_int, 'float': symx.sym_float})
        self.todo = []
        mods = [m for n, m in list(sys.modules.items()) if n == 'dynetworkx' or n.startswith('dynetworkx.')]
        for m in mods:
            for k, v in names.items():
                if k not in m.__dict__:
                    self.todo.append((m.__dict__, k, v))
        self.defaults = []
        if text:
            swap = {int: symx.sym_int, float: symx.sym_float}
            seen = set()
            for m in mods:
                for c in list(m.__dict__.values()):
                    fs = list(c.__dict__.values()) if isinstance(c, type) else [c]
                    for f in fs:
                        f = getattr(f, '__func__', f)
                        d = getattr(f, '__defaults__', None)
                        kd = getattr(f, '__kwdefaults__', None)
                        if id(f) in seen or not str(getattr(f, '__module__', '')).startswith('dynetworkx'):
                            continue
                        seen.add(id(f))
                        if d and any(x is int or x is float for x in d):
                            nd = tuple(swap[x] if x is int or x is float else x for x in d)
                            self.defaults.append((f, '__defaults__', d, nd))
                        if kd and any(x is int or x is float for x in kd.values()):
                            nd = {k: swap[x] if x is int or x is float else x for k, x in kd.items()}
                            self.defaults.append((f, '__kwdefaults__', kd, nd))

    def on(self):
        for d, k, v in self.todo:
            d[k] = v
        for f, a, old, new in self.defaults:
            setattr(f, a, new)

    def off(self):
        for d, k, v in self.todo:
            d.pop(k, None)
        for f, a, old, new in self.defaults:
            setattr(f, a, old)

    @contextlib.contextmanager
    def native(self):
        self.off()
        eng, symx.Engine.current = symx.Engine.current, None
        try:
            yield
        finally:
            symx.Engine.current = eng
            self.on()


# ------------------------------------------------------------------------------------------------ native runs

def native_run(fn, params, inputs):
    """The harness with ordinary numbers.  Returns (failed requirements, observations, assumption violated)."""
    env = symx.ConcreteEnv(inputs)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn(env, **params)
    except symx.PathAbort:
        return [], env.observations, True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        env.failures.append('exception %s: %s at %s' % (type(e).__name__, str(e)[:160], where))
    finally:
        env.close()
    return env.failures, env.observations, False


def exact(inputs):
    return all(not isinstance(v, dict) or v.get('exact', True) for v in inputs.values())


# ------------------------------------------------------------------------------------------------ workers

class FunctionsSeen(object):
    """Which functions of the code under test are executed."""

    def __init__(self):
        self.seen = set()
        self.root = os.path.join(os.path.abspath(REPO), 'dynetworkx') + os.sep
        m = sys.monitoring
        try:
            m.use_tool_id(m.COVERAGE_ID, 'verif')
        except ValueError:
            return
        m.register_callback(m.COVERAGE_ID, m.events.PY_START, self.start)
        m.set_events(m.COVERAGE_ID, m.events.PY_START)

    def start(self, code, offset):
        if code.co_filename.startswith(self.root):
            self.seen.add(os.path.basename(code.co_filename) + ':' + code.co_qualname)
        return sys.monitoring.DISABLE


def run_task(task, deadline):
    name, params = task['h'], task['p']
    fn = harness(name)
    sh = Shadows(text=name.startswith('h_text') or task.get('text', False))
    seen = FunctionsSeen()
    t0 = time.time()
    info = {'validated': 0, 'mismatch': [], 'unconfirmed': [], 'confirmed': []}

    def on_sample(inputs, obs):
        with sh.native():
            fails, nobs, ab = native_run(fn, params, inputs)
        nobs = [(l, symx.canon(o)) for l, o in nobs]
        if fails or ab or nobs != obs:
            info['mismatch'].append({'inputs': inputs, 'fails': fails, 'symbolic': obs[:4], 'native': nobs[:4]})
        else:
            info['validated'] += 1

    def on_violation(v):
        ok = False
        if exact(v.inputs):
            with sh.native():
                fails, nobs, ab = native_run(fn, params, v.inputs)
            ok = bool(fails) and not ab
        else:
            fails = ['inexact']
        (info['confirmed'] if ok else info['unconfirmed']).append(
            {'labels': v.labels, 'inputs': v.inputs, 'detail': v.detail, 'native': fails})
        return ok

    sh.on()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = symx.explore(fn, params, deadline, on_violation=on_violation, on_sample=on_sample,
                             sample_every=task.get('every', 7), max_samples=task.get('samples', 25))
    finally:
        sh.off()
    r.update(info)
    r['wall'] = time.time() - t0
    r['functions'] = sorted(seen.seen)
    return r


def _worker(task, deadline, conn):
    try:
        import resource
        lim = int(os.environ.get('VERIF_TASK_MEM', str(6 << 30)))
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        r = run_task(task, deadline)
    except BaseException as e:
        r = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-1500:]}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


@contextlib.contextmanager
def scratch_dir():
    """A scratch directory for everything the code under test writes; removed afterwards."""
    old = os.environ.get('VP_SCRATCH')
    d = tempfile.mkdtemp(prefix='vp-scratch-')
    os.environ['VP_SCRATCH'] = d
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if old is None:
            os.environ.pop('VP_SCRATCH', None)
        else:
            os.environ['VP_SCRATCH'] = old


def run_tasks(tasks, budget, **kw):
    with scratch_dir():
        return _run_tasks(tasks, budget, **kw)


def _run_tasks(tasks, budget, jobs=None, stop=lambda r: False, verbose=False):
    """Run the tasks in worker processes; results in the order of the tasks."""
    jobs = jobs or min(8, os.cpu_count() or 2)
    ctx = mp.get_context('fork')
    end = time.time() + budget
    results = [None] * len(tasks)
    queue = list(range(len(tasks)))
    queue.sort(key=lambda i: -tasks[i].get('cost', 1))
    running = {}
    stopped = False
    while (queue and not stopped) or running:
        while queue and len(running) < jobs and not stopped:
            i = queue.pop(0)
            a, b = ctx.Pipe(False)
            # a long task must not starve the others: it gets a fair share of the time that is left
            left = end - time.time()
            share = tasks[i].get('share')
            dl = end if share is None else min(end, time.time() + share)
            if left < 1:
                results[i] = {'skipped': True}
                continue
            p = ctx.Process(target=_worker, args=(tasks[i], dl, b))
            p.start()
            b.close()
            running[i] = (p, a)
        from multiprocessing.connection import wait
        ready = wait([c for _, c in running.values()], timeout=1)
        for i in list(running):
            p, c = running[i]
            if c in ready:
                try:
                    results[i] = c.recv()
                    results[i]['task'] = tasks[i]
                except EOFError:
                    results[i] = {'error': 'worker ended without a result (memory?)'}
                p.join()
                del running[i]
                if verbose:
                    r = results[i]
                    print('  %-60s %s' % (label(tasks[i]), brief(r)), flush=True)
                if stop(results[i]):
                    stopped = True
            elif time.time() > end + 60:
                p.kill()
                p.join()
                results[i] = {'error': 'worker did not stop in time'}
                del running[i]
        if stopped:
            for i in list(running):
                p, c = running.pop(i)
                p.kill()
                p.join()
                results[i] = {'skipped': True}
    return results


def label(task):
    return task['h'].split('.')[1] + ' ' + ' '.join('%s=%s' % kv for kv in task['p'].items())


def brief(r):
    if 'stats' not in r:
        return str(r)[:600]
    s = r['stats']
    return 'paths %d queries %d solver %.1fs wall %.1fs %s%s valid %d%s%s%s' % (
        s['paths'], s['queries'], s['solver_s'], r['wall'], 'complete' if r['complete'] else 'INCOMPLETE',
        ' covered ' + '|'.join(r['covered']) if r.get('covered') else '', r['validated'],
        ' MISMATCH %r' % r['mismatch'][:1] if r['mismatch'] else '',
        ' CONFIRMED %r' % r['confirmed'][:1] if r['confirmed'] else '',
        ' UNCONFIRMED %r' % r['unconfirmed'][:1] if r['unconfirmed'] else '')
