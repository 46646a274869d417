"""C13 a rate limiter never exceeds its budget in any window."""
from jaeger_client.rate_limiter import RateLimiter
from jaeger_client.sampler import RateLimitingSampler
from harness.common import *

THREADS = True
BOUNDS = ('rates in [0, 1000] and maximum balances in (0, 1000] (sampler: rates in [0, 500)), costs in [0, 2000], arbitrary initial draw in [0, 1), arbitrary non-decreasing call times; '
          'histories of 4 calls (thorough 5) with no update, of 4 (5) calls with one update at any position for the limiter and with one or two updates for the sampler; '
          'one inductive step of the limiter from any valid state; a sampler used by two threads with one or two calls each or one call and one update (thorough: also three threads) at one moment, followed by calls then and later, every schedule with at most 2 (thorough: 3; three calls or an update: one less; three threads: 1) preemptions; floats modelled as exact reals')
ASSUMPTIONS = ['clock readings do not decrease', 'binary64 rounding is ignored (exact real arithmetic; the replay allows 1e-6)',
               'with two or more updates the claim is made for the sampler only (its maximum balance is max(rate, 1)), as a raw limiter may scale its balance by any factor']
REACH = ['window', 'free', 'admitted', 'rejected', 'threads']


def world(E):
    u = E.real('u', 0, 1, hi_open=True)
    E.set_random(lambda kind, *a: u)
    clk = [E.real('t0', 0, 1000)]
    E.set_clock(lambda: clk[0])
    return clk


def tick(E, clk, i):
    clk[0] = clk[0] + E.real('dt%d' % i, 0, 100000)
    return clk[0]


def windows(E, log, m, r):
    """log: (time, admitted cost or 0); every window that starts and ends at a call"""
    for i in range(len(log)):
        tot = 0
        for j in range(i, len(log)):
            tot = tot + log[j][1]
            E.check(tot <= m + r * (log[j][0] - log[i][0]) + E.tol(1e-6), 'window', 'more admitted than the budget of the window')


def limiter(E, n, upd=None):
    clk = world(E)
    r = E.real('r', 0, 1000)
    m = E.real('m', 0, 1000, lo_open=True)
    l = RateLimiter(r, m)
    log = []
    for i in range(n):
        if upd == i:
            r2 = E.real('r2', 0, 1000)
            m2 = E.real('m2', 0, 1000, lo_open=True)
            tick(E, clk, 100 + i)
            l.update(r2, m2)
            r = E.ite(r2 > r, r2, r)
            m = E.ite(m2 > m, m2, m)
        t = tick(E, clk, i)
        c = E.real('c%d' % i, 0, 2000)
        if l.check_credit(c):
            E.reach('admitted')
            log.append((t, c))
        else:
            E.reach('rejected')
            log.append((t, 0))
    windows(E, log, m, r)


def free(E):
    """a rejected call costs nothing: with and without an extra rejected call the next call fares the same"""
    clk = world(E)
    r = E.real('r', 0, 1000)
    m = E.real('m', 0, 1000, lo_open=True)
    a, b, lo, hi = [RateLimiter(r, m) for _ in range(4)]
    tick(E, clk, 0)
    if a.check_credit(E.real('big', 0, 5000)):
        return
    tick(E, clk, 1)
    c = E.real('c', 0, 1000)
    x, y = a.check_credit(c), b.check_credit(c)
    # lo, hi: the replay accepts a difference that is a rounding artefact
    E.check(x == y or lo.check_credit(c - E.tol(1e-6)) != hi.check_credit(c + E.tol(1e-6)), 'free', 'a rejected call changes a later decision')


def induct(E):
    """from any valid state, one call or update: balance stays in range and no credit appears from nowhere (by induction: any history)"""
    clk = world(E)
    r = E.real('r', 0, 1000)
    m = E.real('m', 0, 1000, lo_open=True)
    l = RateLimiter(r, m)
    if not hasattr(l, 'balance') or not hasattr(l, 'last_tick'):
        return
    b = E.real('b', 0, 1000)
    E.assume(b <= m)
    l.balance = b
    l.last_tick = t0 = clk[0]
    t = tick(E, clk, 0)
    c = E.real('c', 0, 2000)
    paid = c if l.check_credit(c) else 0
    E.check(E.And(l.balance >= -E.tol(1e-6), l.balance <= m + E.tol(1e-6)), 'state', 'balance out of range')
    E.check(l.balance + paid <= b + r * (t - t0) + E.tol(1e-6), 'state', 'credit from nowhere')


def sampler(E, n, upds):
    clk = world(E)
    r = E.real('r', 0, 500, hi_open=True)
    s = RateLimitingSampler(r)
    top = r
    log = []
    for i in range(n):
        if i in upds:
            r2 = E.real('r_%d' % i, 0, 500, hi_open=True)
            tick(E, clk, 100 + i)
            s.update(r2)
            top = E.ite(r2 > top, r2, top)
        t = tick(E, clk, i)
        ok, tags = s.is_sampled(i + 1, 'op')
        log.append((t, 1 if ok else 0))
        E.reach('admitted' if ok else 'rejected')
    windows(E, log, E.ite(top > 1, top, 1.0), top)


def threads(E, calls, upd, bound):
    """calls[i] decisions in thread i; an update of the rate in a thread of its own"""
    clk = world(E)
    t0 = clk[0]
    r = E.real('r', 0, 500, hi_open=True)
    s = RateLimitingSampler(r)
    top = r
    log = []

    def call():
        ok, tags = s.is_sampled(3, 'op')
        log.append(ok)
    tick(E, clk, 0)
    fns = [lambda k=k: [call() for _ in range(k)] for k in calls]
    if upd:
        r2 = E.real('r2', 0, 500, hi_open=True)
        top = E.ite(r2 > top, r2, top)
        fns.append(lambda: s.update(r2))
    ts = E.threads(fns, bound)
    for t in ts:
        E.check(t.exc is None, 'raises', 'raises %s' % (type(t.exc).__name__,))
    E.check(len(log) == sum(calls), 'raises', 'a call is lost')
    m = E.ite(top > 1, top, 1.0)
    E.check(sum(log) <= m + E.tol(1e-6), 'window', 'more admitted than the budget of the window')
    call()
    E.check(sum(log) <= m + E.tol(1e-6), 'window', 'more admitted than the budget of the window')
    t1 = tick(E, clk, 1)
    call()
    E.check(sum(log) <= m + top * (t1 - t0) + E.tol(1e-6), 'window', 'more admitted than the budget of the window')
    E.reach('threads')


def scenarios(tier):
    deep = tier == 'thorough'
    n = 5 if deep else 4
    out = [('limiter%d' % k, limiter, dict(n=k)) for k in range(1, n + 1)]
    out += [('update%d' % k, limiter, dict(n=n - 1, upd=k)) for k in range(n - 1)]
    out.append(('free', free, {}))
    out.append(('induct', induct, {}))
    out.append(('sampler', sampler, dict(n=n, upds=())))
    out += [('sampler-u%d' % k, sampler, dict(n=n, upds=(k,))) for k in range(n)]
    out += [('sampler-u%d%d' % (j, k), sampler, dict(n=n - 1 if not deep else n, upds=(j, k))) for k in range(n - 1) for j in range(k)]
    b = 3 if deep else 2
    out.append(('threads11', threads, dict(calls=(1, 1), upd=False, bound=b)))
    out.append(('threads21', threads, dict(calls=(2, 1), upd=False, bound=b - 1)))
    out.append(('threads1-update', threads, dict(calls=(1,), upd=True, bound=b - 1)))
    if deep:
        out.append(('threads111', threads, dict(calls=(1, 1, 1), upd=False, bound=1)))
        out.append(('threads11-update', threads, dict(calls=(1, 1), upd=True, bound=1)))
    return out
