"""C14 a rate limiter accrues credit and rescales on update."""
from jaeger_client.rate_limiter import RateLimiter
from jaeger_client.sampler import RateLimitingSampler
from harness.common import *

BOUNDS = ('rates in [0, 1000], maximum balances in (0, 1000] (sampler: rates in [0, 500)), costs in [0, 2000], arbitrary initial draw in [0, 1) and non-decreasing times; '
          'histories of up to 3 (thorough 4) earlier calls and updates before the observed one; sequences of up to 2 (thorough 3) sampler updates; floats modelled as exact reals')
ASSUMPTIONS = ['clock readings do not decrease', 'binary64 rounding is ignored (exact real arithmetic; the replay allows 1e-6)']
REACH = ['accrued', 'initial', 'fraction', 'old-rate', 'sampler', 'tags', 'too-much']


def world(E):
    u = E.real('u', 0, 1, hi_open=True)
    E.set_random(lambda kind, *a: u)
    clk = [E.real('t0', 0, 1000)]
    E.set_clock(lambda: clk[0])
    return clk


def tick(E, clk, i, name='dt'):
    clk[0] = clk[0] + E.real('%s%d' % (name, i), 0, 100000)
    return clk[0]


def params(E, i=''):
    return E.real('r%s' % i, 0, 1000), E.real('m%s' % i, 0, 1000, lo_open=True)


def history(E, l, clk, ops):
    for i, o in enumerate(ops):
        tick(E, clk, i)
        if o == 'c':
            l.check_credit(E.real('c%d' % i, 0, 2000))
        else:
            r, m = params(E, i)
            l.update(r, m)
    return l


def accrual(E, ops):
    """whatever happened before: c / rate seconds after the previous call a cost c <= max is admitted, and nothing above the maximum is"""
    clk = world(E)
    r, m = params(E)
    l = RateLimiter(r, m)
    for i, o in enumerate(ops):
        tick(E, clk, i)
        if o == 'c':
            l.check_credit(E.real('c%d' % i, 0, 2000))
        else:
            r, m = params(E, i)
            l.update(r, m)
    dt = E.real('wait', 0, 100000)
    clk[0] = clk[0] + dt
    c = E.real('c', 0, 2000)
    got = l.check_credit(c)
    if got:
        E.check(c <= m + E.tol(1e-6), 'too-much', 'cost above the maximum admitted')
    else:
        E.check(E.Not(E.And(c <= m - E.tol(1e-6), r * dt >= c + E.tol(1e-6))), 'accrued', 'refused although enough time passed')


def initial(E):
    clk = world(E)
    r, m = params(E)
    l = RateLimiter(r, m)
    c = E.real('c', 0, 2000)
    if l.check_credit(c):
        E.check(c <= m + E.tol(1e-6), 'initial', 'initial balance above the maximum')
    s = RateLimitingSampler(E.real('rs', 0, 500, hi_open=True))
    n = 0
    while n < 4 and s.is_sampled(1, 'op')[0]:
        n += 1
    E.check(n == 0 or n <= E.ite(s.traces_per_second > 1, s.traces_per_second, 1.0), 'initial', 'initial balance above the maximum')


def same_decision(E, x, lo, hi):
    """x is what a reference limiter says; the replay accepts either answer within rounding of the boundary"""
    a, b = lo, hi
    E.check(x == a or x == b, 'fraction', 'decision after the update differs')


def fraction(E, ops):
    """twin limiters with the same history; one is updated.  It then admits the scaled cost iff the other admits the original one.
    The time before the update counts at the old rate"""
    clk = world(E)
    r, m = params(E)
    ls = [RateLimiter(r, m) for _ in range(3)]
    for i, o in enumerate(ops):
        tick(E, clk, i)
        c = E.real('c%d' % i, 0, 2000)
        for l in ls:
            l.check_credit(c)
    tick(E, clk, 50)
    r2, m2 = params(E, 'n')
    ls[0].update(r2, m2)
    E.reach('old-rate')
    f = E.real('f', 0, 1)
    x = ls[0].check_credit(f * m2)
    # the others are asked at the same time for the same fraction of their maximum
    lo, hi = ls[1].check_credit((f - E.tol(1e-6)) * m), ls[2].check_credit((f + E.tol(1e-6)) * m)
    same_decision(E, x, lo, hi)


def after(E):
    """after an update the new rate and maximum hold"""
    clk = world(E)
    r, m = params(E)
    ls = [RateLimiter(r, m) for _ in range(3)]
    r2, m2 = params(E, 'n')
    tick(E, clk, 0)
    for l in ls:
        l.update(r2, m2)
    ls[0].check_credit(0.0)
    # drain to a known level: a cost equal to the whole balance cannot be known, so compare with a fresh limiter of the same fraction
    f = RateLimiter(r2, m2)
    dt = E.real('wait', 0, 100000)
    clk[0] = clk[0] + dt
    c = E.real('c', 0, 2000)
    got = ls[0].check_credit(c)
    if got:
        E.check(c <= m2 + E.tol(1e-6), 'too-much', 'cost above the new maximum admitted')
    if E.And(c + E.tol(1e-6) <= m2, r2 * dt >= c + E.tol(1e-6)):
        E.check(got, 'accrued', 'new rate does not accrue')
    E.check(E.Not(E.And(got, c > m2 + r2 * dt + E.tol(1e-6))), 'too-much', 'more than balance and accrual')


def sampler(E, n):
    """any sequence of valid rates: no error, the tag shows the rate, the limiter still accrues at that rate"""
    clk = world(E)
    r = E.real('r', 0, 500, hi_open=True)
    s = RateLimitingSampler(r)
    for i in range(n):
        tick(E, clk, i)
        if E.choose('call%d' % i, 2):
            s.is_sampled(5, 'op')
        same = E.choose('same%d' % i, 2) if i else 0
        r2 = r if same else E.pick('rate%d' % i, [0, 0.0, E.real('r%d' % i, 0, 500, hi_open=True)])
        changed = s.update(r2)
        E.check(bool(changed) == bool(r != r2), 'sampler', 'update does not report whether the rate changed')
        r = r2
    ok, tags = s.is_sampled(6, 'op')
    E.check(tags['sampler.type'] == 'ratelimiting', 'tags', 'sampler.type')
    E.check(tags['sampler.param'] == r, 'tags', 'sampler.param is not the rate')
    dt = E.real('wait', 0, 100000)
    clk[0] = clk[0] + dt
    got, _ = s.is_sampled(7, 'op')
    E.check(E.implies(r * dt >= 1.0 + E.tol(1e-6), got), 'accrued', 'refused although a whole trace accrued')
    if got and not ok:
        pass


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    hist = ['', 'c', 'u', 'cc', 'cu', 'uc', 'uu', 'ccc', 'cuc', 'ucc']
    if deep:
        hist += ['ucu', 'cuu', 'cccc', 'cucc', 'ccuc']
    for h in hist:
        out.append(('accrual-' + h, accrual, dict(ops=h)))
    out.append(('initial', initial, {}))
    for h in ['', 'c', 'cc'] + (['ccc'] if deep else []):
        out.append(('fraction-' + h, fraction, dict(ops=h)))
    out.append(('after', after, {}))
    for n in range(1, 4 if deep else 3):
        out.append(('sampler%d' % n, sampler, dict(n=n)))
    return out
