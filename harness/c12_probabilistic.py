"""C12 ProbabilisticSampler: the decision is exactly low64(trace_id) < rate * 2**64."""
from jaeger_client.sampler import ProbabilisticSampler

BOUNDS = ('trace ids: all integers 0..2^128-1; sampling rate: every binary64 value (incl. NaN, infinities, '
          'subnormals); one decision per path, plus pairs of rates/ids for monotonicity')
ASSUMPTIONS = ['IEEE-754 binary64 arithmetic as encoded by z3 FloatingPoint (round to nearest even)']
REACH = ['exact', 'rejects', 'monotone', 'never', 'always']


def decision(E):
    rate = E.float('rate', 0.0, 1.0)
    tid = E.int('trace_id', 0, (1 << 128) - 1)
    s = ProbabilisticSampler(rate)
    got, tags = s.is_sampled(tid, 'op')
    low = tid & 0xFFFFFFFFFFFFFFFF
    E.check(E.Not(E.Or(E.And(got, low >= rate * 18446744073709551616.0), E.And(E.Not(got), low < rate * 18446744073709551616.0))),
            'exact', 'decision differs from low64(trace_id) < rate*2^64')
    E.check(tags['sampler.type'] == 'probabilistic', 'tags')
    E.check(tags['sampler.param'] == rate, 'tags')
    E.observe('got', got)


def extremes(E):
    tid = E.int('trace_id', 0, (1 << 128) - 1)
    E.check(E.Not(ProbabilisticSampler(0.0).is_sampled(tid)[0]), 'never')
    E.check(ProbabilisticSampler(1.0).is_sampled(tid)[0], 'always')


def invalid(E):
    rate = E.float('rate', nan=True, inf=True)
    try:
        ProbabilisticSampler(rate)
        ok = True
    except Exception:
        ok = False
    E.check(E.Not(E.And(ok, E.Not(E.And(rate >= 0.0, rate <= 1.0)))), 'rejects', 'rate outside [0,1] accepted')
    E.check(E.Or(ok, E.Not(E.And(rate >= 0.0, rate <= 1.0))), 'accepts', 'valid rate rejected')


def monotone(E):
    r1 = E.float('r1', 0.0, 1.0)
    r2 = E.float('r2', 0.0, 1.0)
    E.assume(r1 <= r2)
    tid = E.int('trace_id', 0, (1 << 64) - 1)
    a = ProbabilisticSampler(r1).is_sampled(tid)[0]
    b = ProbabilisticSampler(r2).is_sampled(tid)[0]
    E.check(E.implies(a, b), 'monotone', 'a higher rate samples less')


def scenarios(tier):
    return [('decision', decision, {}), ('extremes', extremes, {}), ('invalid', invalid, {}), ('monotone', monotone, {})]
