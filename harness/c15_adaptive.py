"""C15 the per-operation sampler: lower bound, limits and tags."""
from jaeger_client.sampler import AdaptiveSampler, GuaranteedThroughputProbabilisticSampler, ProbabilisticSampler, RateLimitingSampler
from harness.common import *

BOUNDS = ('trace ids 64 bit (one scenario 128 bit), lower bounds in [0, 400] and times symbolic (exact reals), initial limiter draw symbolic, sampling rates 0, 0.25, 1 or every binary64 in [0, 1] for a single operation, distinct fixed rates with several operations; '
          'up to 3 (thorough 4) traces of one operation, up to 4 (5) traces over 4 operations, maximum sizes 0..3, none to two operations configured, one strategy update at any position; operation names of 1..2 characters (space, tab, slash, letters of either case) against a listed one and each other; documents without one or both defaults, first or as update; a maximum of 300')
ASSUMPTIONS = ['the single-rule samplers are those decided by C12, C13 and C14; they serve as oracle with equal draws and times',
               'what an update means for operations it does not list is left open']
REACH = ['single', 'prob-tags', 'lower-tags', 'adaptive', 'over-limit', 'on-own', 'updated']
PROB, LOWER = 'probabilistic', 'lowerbound'


def world(E):
    u = E.real('u', 0, 1, hi_open=True)
    E.set_random(lambda kind, *a: u)
    clk = [1000.0]
    E.set_clock(lambda: clk[0])
    return clk


def tick(E, clk, i):
    clk[0] = clk[0] + E.real('dt%d' % i, 0, 100000)


class Op(object):
    """oracle of one operation"""
    def __init__(self, lb, rate):
        self.p = ProbabilisticSampler(rate)
        self.l = RateLimitingSampler(lb)
        self.rate = rate

    def update(self, lb, rate):
        self.p = ProbabilisticSampler(rate)
        self.rate = rate
        self.l.update(lb)

    def decide(self, tid):
        p = self.p.is_sampled(tid)[0]
        l = self.l.is_sampled(tid)[0]
        return p, l


def agree(E, got, want, rate, label):
    ok, tags = got
    p, l = want
    if p:
        E.check(ok, label, 'probabilistic decision ignored')
        E.check(tags['sampler.type'] == PROB, 'prob-tags', 'type of a probabilistic decision')
        E.check(tags['sampler.param'] == rate, 'prob-tags', 'parameter of a probabilistic decision')
    else:
        E.check(bool(ok) == bool(l), label, 'decision differs from the lower bound limiter')
        E.check(tags['sampler.type'] == LOWER, 'lower-tags', 'type of a lower bound decision')
        E.check(tags['sampler.param'] == rate, 'lower-tags', 'parameter of a lower bound decision')


def single(E, n, anyrate=False, wide=False):
    clk = world(E)
    lb = E.real('lb', 0, 400)
    rate = E.float('rate', 0.0, 1.0) if anyrate else E.pick('rate', [0.0, 0.25, 1.0])
    s = GuaranteedThroughputProbabilisticSampler('op', lb, rate)
    o = Op(lb, rate)
    for i in range(n):
        tick(E, clk, i)
        tid = E.int('id%d' % i, 1, U128 if wide else U64)
        if wide:
            # the rule itself is decided by C12
            tid = (tid >> 64 << 64) + (tid & U64)
        agree(E, s.is_sampled(tid, 'op'), o.decide(tid), rate, 'single')


def single_update(E, n):
    clk = world(E)
    lb, rate = E.real('lb', 0, 400), E.pick('rate', [0.0, 0.25, 1.0])
    s = GuaranteedThroughputProbabilisticSampler('op', lb, rate)
    o = Op(lb, rate)
    for i in range(n):
        if i == 1:
            tick(E, clk, 90)
            lb, rate = E.pick('lb2', [lb, E.real('lbn', 0, 400)]), E.pick('rate2', [0.0, 0.25, 0.25000000000000006, 1.0])
            s.update(lb, rate)
            o.update(lb, rate)
            E.reach('updated')
        tick(E, clk, i)
        tid = E.int('id%d' % i, 1, U64)
        agree(E, s.is_sampled(tid, 'op'), o.decide(tid), rate, 'single')


def strategies(E, i, names, lb, drate):
    rates = [{'a': (0.25, 1.0), 'b': (0.0, 0.25), 'c': (0.5, 0.5)}[n][i] for n in names]
    d = {'perOperationStrategies': [{'operation': n, 'probabilisticSampling': {'samplingRate': r}} for n, r in zip(names, rates)],
         'defaultSamplingProbability': drate, 'defaultLowerBoundTracesPerSecond': lb}
    return d, dict(zip(names, rates))


OPS = ['a', 'b', 'c', '']


def adaptive(E, n, names, maxops, upd=None, names2=''):
    clk = world(E)
    lb = E.real('lb', 0, 400)
    drate = 0.125
    d, rates = strategies(E, 0, names, lb, drate)
    s = AdaptiveSampler(d, maxops)
    model = {k: Op(lb, r) for k, r in rates.items()}
    loose = set()
    for i in range(n):
        if upd == i:
            lb, drate = E.real('lbn', 0, 400), 0.625
            tick(E, clk, 90)
            d, rates = strategies(E, 1, names2, lb, drate)
            s.update(d)
            for k, r in rates.items():
                if k in model:
                    model[k].update(lb, r)
                else:
                    model[k] = Op(lb, r)
            loose = set(k for k in model if k not in rates)
            E.reach('updated')
        tick(E, clk, i)
        op = E.pick('op%d' % i, OPS[:3] if upd is not None else OPS)
        tid = E.int('id%d' % i, 1, U64)
        got = s.is_sampled(tid, op)
        if op in loose:
            continue
        if op not in model:
            if len(model) >= maxops:
                p = ProbabilisticSampler(drate).is_sampled(tid)[0]
                E.check(bool(got[0]) == bool(p), 'over-limit', 'decision of an operation beyond the maximum')
                E.check(got[1]['sampler.type'] == PROB and got[1]['sampler.param'] == drate, 'over-limit', 'tags of an operation beyond the maximum')
                continue
            E.reach('on-own')
            model[op] = Op(lb, drate)
        agree(E, got, model[op].decide(tid), model[op].rate, 'adaptive')


def odd_names(E):
    """operation names are compared exactly"""
    clk = world(E)
    s = AdaptiveSampler(strategies(E, 0, 'a', 1.0, 0.125)[0], 10)
    model = [('a', Op(1.0, 0.25))]
    for i in range(2):
        op = E.str('op%d' % i, (1, 2), chars=[(0x09, 0x0a), (0x20, 0x20), (0x2f, 0x2f), (0x41, 0x42), (0x61, 0x62), (0xe0, 0xe1)])
        got = s.is_sampled(U64, op)
        for k, m in model:
            if k == op:
                break
        else:
            m = Op(1.0, 0.125)
            model.append((op, m))
        agree(E, got, m.decide(U64), m.rate, 'adaptive')


def defaults(E, n):
    """a strategy that leaves a default out has the documented one, whatever was in force before"""
    clk = world(E)
    s = None
    for i in range(n):
        d, rates = strategies(E, 0, 'a', E.real('lb%d' % i, 0, 400), 0.125)
        k = E.choose('gone%d' % i, 4)
        lb, drate = d['defaultLowerBoundTracesPerSecond'], 0.125
        if k & 1:
            del d['defaultLowerBoundTracesPerSecond']
            lb = 1.0 / 600
        if k & 2:
            del d['defaultSamplingProbability']
            drate = 0.001
        if s is None:
            s = AdaptiveSampler(d, 2)
        else:
            s.update(d)
        op = 'n%d' % i
    # an operation seen first now, then one beyond the maximum
    got = s.is_sampled(U64, op)
    agree(E, got, Op(lb, drate).decide(U64), drate, 'adaptive')
    ok, tags = s.is_sampled(U64, 'beyond')
    E.check(not ok and tags['sampler.param'] == drate, 'over-limit', 'default probability differs')


def many(E, n):
    """the maximum is the one given"""
    clk = world(E)
    s = AdaptiveSampler({'perOperationStrategies': [], 'defaultSamplingProbability': 0.125, 'defaultLowerBoundTracesPerSecond': 1.0}, n)
    for i in range(n):
        s.is_sampled(U64, 'op%d' % i)
    for i in (0, n // 2, n - 1):
        E.check(s.is_sampled(U64, 'op%d' % i)[1]['sampler.type'] == LOWER, 'adaptive', 'tracked operation forgotten')
    E.check(s.is_sampled(U64, 'more')[1]['sampler.type'] == PROB, 'over-limit', 'tracks more operations than the maximum')
    E.check(s.is_sampled(U64, 'op0')[1]['sampler.type'] == LOWER, 'adaptive', 'tracked operation forgotten')


def scenarios(tier):
    deep = tier == 'thorough'
    out = [('single%d' % n, single, dict(n=n)) for n in range(1, 5 if deep else 4)]
    out += [('anyrate', single, dict(n=2 if deep else 1, anyrate=True)), ('wide', single, dict(n=1, wide=True)),
            ('supdate', single_update, dict(n=3 if deep else 2)),
            ('names', odd_names, {}), ('defaults1', defaults, dict(n=1)), ('defaults2', defaults, dict(n=2)), ('many', many, dict(n=300))]
    for names in ('', 'a', 'ab'):
        for maxops in (0, 1, 2, 3) if deep else (0, 1, 2):
            out.append(('adaptive-%s-%d' % (names, maxops), adaptive, dict(n=3, names=names, maxops=maxops)))
    if deep:
        out.append(('adaptive-long', adaptive, dict(n=4, names='a', maxops=2)))
    for names, names2 in (('', 'a'), ('a', 'a'), ('a', 'b'), ('ab', 'b'), ('a', '')):
        for upd in (0, 1, 2) if deep else (1,):
            out.append(('update-%s-%s-%d' % (names, names2, upd), adaptive, dict(n=3 if deep else 2, names=names, maxops=2, upd=upd, names2=names2)))
    return out
