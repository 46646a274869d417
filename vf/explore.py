"""Exploration driver: runs every scenario of a harness over all feasible paths, in parallel."""
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

from . import core, env, stubs, values, models, sched
from .blame import blame

_now = time.perf_counter


class PathResult(object):
    pass


def run_path(fn, kwargs, prefix, deadline, timeout_ms, max_steps=None):
    """Execute one path.  Returns (ctx, status)."""
    ctx = core.Ctx(prefix, deadline, timeout_ms)
    core.set_ctx(ctx)
    stubs.reset()
    sched.reset()
    E = env.SymEnv(ctx)
    status = 'ok'
    try:
        fn(E, **kwargs)
    except core.PathEnd as e:
        status = 'end:' + str(e)
    except core.Violation:
        status = 'violation'
    except core.Budget:
        status = 'budget'
    except models.LoopBound:
        ctx.incomplete.append('loop bound')
        status = 'loopbound'
        try:
            ctx.violations.append(env.witness(ctx, 'unbounded-work', 'loop over a symbolic count passed the work bound'))
        except core.Control:
            pass
    except models.DeadlockError as e:
        status = 'deadlock'
        try:
            ctx.violations.append(env.witness(ctx, 'deadlock', str(e)))
        except core.Control:
            pass
    except core.Unsupported as e:
        ctx.incomplete.append('unsupported: %s' % e)
        status = 'unsupported'
        ctx.unsupported_tb = traceback.format_exc(limit=-6)
    except core.Nondeterminism as e:
        ctx.inconclusive.append('nondeterminism: %s' % e)
        status = 'nondet'
    except RecursionError:
        ctx.incomplete.append('recursion')
        status = 'recursion'
    except core.Control as e:
        status = 'control:' + type(e).__name__
        ctx.inconclusive.append(status)
    except Exception as e:
        who, where = blame(e.__traceback__)
        status = 'exc:' + type(e).__name__
        ctx.exc = ''.join(traceback.format_exception(type(e), e, e.__traceback__, limit=-12))
        if who == 'target':
            try:
                ctx.violations.append(env.witness(ctx, 'uncaught:' + type(e).__name__,
                                                  'exception escapes at %s' % where))
            except core.Control:
                pass
        else:
            ctx.inconclusive.append('harness exception: ' + ctx.exc[-1500:])
    finally:
        stubs.reset()
        if ctx.sched is not None:
            ctx.sched.shutdown()
        core.set_ctx(None)
    return ctx, status


def explore_slice(fn, kwargs, prefixes, slice_s, deadline, timeout_ms, want_samples, max_viol, batch=None):
    """DFS from the given prefixes for at most slice_s seconds."""
    t_end = _now() + slice_s
    stack = list(prefixes)
    r = {'paths': 0, 'status': {}, 'labels': {}, 'violations': [], 'incomplete': {}, 'inconclusive': {},
         'samples': [], 'maxdepth': 0, 'left': [], 'concretised': 0, 'tb': [], 'fallback': []}
    while stack:
        if _now() > t_end or (deadline is not None and _now() > deadline):
            break
        if len(r['violations']) >= max_viol:
            break
        prefix = stack.pop()
        ctx, status = run_path(fn, kwargs, prefix, deadline, timeout_ms)
        if status == 'budget':
            stack.append(prefix)
            break
        stack.extend(ctx.pending)
        r['paths'] += 1
        key = status.split(':')[0] if status.startswith('end') else status
        r['status'][key] = r['status'].get(key, 0) + 1
        for k, v in ctx.labels.items():
            r['labels'][k] = r['labels'].get(k, 0) + v
        r['violations'].extend(ctx.violations)
        for k in set(ctx.incomplete):
            r['incomplete'][k] = r['incomplete'].get(k, 0) + 1
        for k in ctx.inconclusive:
            r['inconclusive'][k] = r['inconclusive'].get(k, 0) + 1
        if (status in ('unsupported', 'recursion') or status == 'end:unknown' or ctx.inconclusive) and len(r['fallback']) < 24 and ctx.sched is None:
            # no symbolic answer for this path: at least its witnesses are tried on the real code
            try:
                core.set_ctx(ctx)
                r['fallback'].extend(env.diverse(ctx, 4, random.Random(len(ctx.trail))))
            except (core.Control, Exception):
                pass
            finally:
                core.set_ctx(None)
        if status == 'unsupported' and len(r['tb']) < 2:
            r['tb'].append(ctx.unsupported_tb)
        if status.startswith('exc') and len(r['tb']) < 2:
            r['tb'].append(ctx.exc)
        r['concretised'] += ctx.concretised
        r['maxdepth'] = max(r['maxdepth'], len(ctx.trail))
        if want_samples and status == 'ok' and len(r['samples']) < want_samples and ctx.inputs:
            try:
                core.set_ctx(ctx)
                m = ctx.get_model()
                s = {'inputs': env.dump_inputs(ctx, m),
                     'observed': [(n, env.norm(env.concretise(m, v))) for n, v in ctx.observed],
                     'complete': not ctx.incomplete}
                if ctx.sched is not None:
                    s['schedule'] = ctx.sched.dump(m)
                r['samples'].append(s)
            except (core.Control, Exception):
                pass
            finally:
                core.set_ctx(None)
    r['left'] = stack
    return r


def _worker(rfd, wfd, scenarios, timeout_ms):
    rf = os.fdopen(rfd, 'rb')
    wf = os.fdopen(wfd, 'wb')
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            task = pickle.load(rf)
        except EOFError:
            os._exit(0)
        if task is None:
            os._exit(0)
        i, prefixes, slice_s, deadline, want, maxv = task
        s0 = dict(core.STATS.as_dict())
        core.FUNCS.clear()
        try:
            r = explore_slice(scenarios[i][1], scenarios[i][2], prefixes, slice_s, deadline, timeout_ms, want, maxv)
        except BaseException as e:
            r = {'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__))}
        s1 = core.STATS.as_dict()
        r['stats'] = {k: s1[k] - s0[k] for k in s1}
        r['funcs'] = dict(core.FUNCS)
        pickle.dump((i, r), wf)
        wf.flush()


class Pool(object):
    def __init__(self, n, scenarios, timeout_ms):
        self.w = []
        for _ in range(n):
            a, b = os.pipe()
            c, d = os.pipe()
            pid = os.fork()
            if pid == 0:
                for x in self.w:
                    os.close(x['w'].fileno())
                os.close(b)
                os.close(c)
                try:
                    _worker(a, d, scenarios, timeout_ms)
                finally:
                    os._exit(1)
            os.close(a)
            os.close(d)
            self.w.append({'pid': pid, 'w': os.fdopen(b, 'wb'), 'r': os.fdopen(c, 'rb'), 'busy': False})

    def close(self):
        for x in self.w:
            try:
                os.kill(x['pid'], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(x['pid'], 0)
            except OSError:
                pass


def merge(tot, r):
    for k in ('paths', 'concretised'):
        tot[k] = tot.get(k, 0) + r[k]
    tot['maxdepth'] = max(tot.get('maxdepth', 0), r['maxdepth'])
    for k in ('status', 'labels', 'incomplete', 'inconclusive'):
        d = tot.setdefault(k, {})
        for a, b in r[k].items():
            d[a] = d.get(a, 0) + b
    tot.setdefault('tb', [])
    tot['tb'].extend(r['tb'][:2])
    tot['tb'] = tot['tb'][:4]


def explore_all(scenarios, budget_s, nproc=8, timeout_ms=10000, samples_per=3, on_violation=None,
                max_paths=None, verbose=False):
    """scenarios: list of (name, fn, kwargs).  on_violation(i, witness) -> True to stop everything.
    Returns (per-scenario totals, stats, funcs, finished, worker_errors)."""
    t0 = _now()
    deadline = t0 + budget_s
    pool = Pool(nproc, scenarios, timeout_ms)
    tot = [{'name': s[0], 'samples': [], 'fallback': [], 'violations': [], 'time': 0.0} for s in scenarios]
    for t in tot:
        merge(t, {'paths': 0, 'concretised': 0, 'maxdepth': 0, 'status': {}, 'labels': {}, 'incomplete': {},
                  'inconclusive': {}, 'tb': []})
    queue = [(i, [[]]) for i in range(len(scenarios))]
    queue.reverse()
    outstanding = {i: 0 for i in range(len(scenarios))}
    stats, funcs, errors = {}, {}, []
    stop = False
    nviol = [0] * len(scenarios)
    t_last = _now()
    try:
        while True:
            # hand out work
            for x in pool.w:
                if not x['busy'] and queue and not stop and _now() < deadline:
                    i, pf = queue.pop()
                    if nviol[i] >= 12:
                        continue
                    slice_s = 0.4 if len(queue) < 2 * len(pool.w) else 2.0
                    want = samples_per if len(tot[i]['samples']) < samples_per else 0
                    pickle.dump((i, pf, slice_s, deadline, want, 6), x['w'])
                    x['w'].flush()
                    x['busy'] = True
                    x['task'] = (i, pf)
                    x['t'] = _now()
            busy = [x for x in pool.w if x['busy']]
            if not busy:
                break
            rl, _, _ = select.select([x['r'] for x in busy], [], [], 1.0)
            for x in busy:
                if x['r'] in rl:
                    try:
                        i, r = pickle.load(x['r'])
                    except EOFError:
                        errors.append('worker died in %s' % scenarios[x['task'][0]][0])
                        x['busy'] = False
                        pool.w.remove(x)
                        continue
                    x['busy'] = False
                    if 'error' in r:
                        errors.append(r['error'])
                        continue
                    for k, v in r['stats'].items():
                        stats[k] = stats.get(k, 0) + v
                    for k, v in r['funcs'].items():
                        funcs[k] = funcs.get(k, 0) + v
                    t = tot[i]
                    t['time'] += _now() - x['t']
                    merge(t, r)
                    t['fallback'].extend(r['fallback'][:max(0, 96 - len(t['fallback']))])
                    t['samples'].extend(r['samples'][:max(0, samples_per - len(t['samples']))])
                    for w in r['violations']:
                        nviol[i] += 1
                        t['violations'].append(w)
                        if on_violation is not None and not stop and on_violation(i, w):
                            stop = True
                    left = r['left']
                    if left and nviol[i] < 12:
                        # split so that idle workers get something
                        k = min(len(left), max(1, len(pool.w)))
                        for j in range(k):
                            part = left[j::k]
                            if part:
                                queue.insert(0 if len(queue) > 4 * len(pool.w) else len(queue), (i, part))
                elif _now() > deadline + 25:
                    errors.append('worker stuck in %s' % scenarios[x['task'][0]][0])
                    stop = True
                    x['busy'] = False
            if verbose and _now() - t_last > 5:
                t_last = _now()
                sys.stderr.write('[%.0fs] %s queue=%d\n' % (t_last - t0, sum(t['paths'] for t in tot), len(queue)))
            if stop:
                break
            if _now() > deadline + 30:
                break
    finally:
        pool.close()
    left = {}
    for i, pf in queue:
        left[i] = left.get(i, 0) + len(pf)
    for i, t in enumerate(tot):
        t['left'] = left.get(i, 0)
    finished = not queue and not stop and _now() < deadline + 30
    return tot, stats, funcs, finished, errors
