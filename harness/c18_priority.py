"""C18 the sampling-priority tag."""
from harness.common import *

BOUNDS = ('value: all integers in [-2^70, 2^70], all binary64 floats up to 2^60 in size and NaN and infinities, booleans, all texts of 0..3 (thorough 4) Unicode characters, None, containers, objects; initial flags 0..3 and 8..11 (an unrelated bit); '
          'throttler absent or with any decision; one call, and two calls with integer values')
ASSUMPTIONS = ['negative numbers and fractions between 0 and 1 are outside what the tag documents: only "does not raise" is required of them']
REACH = ['set', 'cleared', 'refused', 'not-a-number', 'again']
KEY = 'sampling.priority'


class Odd(object):
    pass


def make(E, throttled, flags):
    th = StubThrottler(E.bool('allow')) if throttled else None
    t = make_tracer(throttler=th)
    E.set_clock(lambda: 1000.0)
    sp = t.start_span('op', child_of=SpanContext(1, 2, 3, flags))
    return sp, th


def prios(sp):
    return [x for x in sp.tags if x.key == KEY]


def verdict(E, sp, th, fl, positive, zero, weird):
    """flags and tags after one call with a value that is positive / zero / neither (or unspecified)"""
    asked = len(th.calls) if th else 0
    if weird:
        E.reach('unspecified')
        return
    if positive:
        if fl & 2:
            E.check(sp.flags == fl, 'again', 'flags of a debug span changed')
            E.check(asked == 0, 'again', 'throttler asked for a debug span')
            E.check(len(prios(sp)) == 0, 'again', 'tag added to a debug span')
        elif th is None or th.decision:
            E.check(sp.flags == fl | 3, 'set', 'span not sampled and debug')
            E.check(len(prios(sp)) == 1, 'set', 'tag not recorded')
            E.check(asked == (1 if th else 0), 'set', 'throttler not asked once')
        else:
            E.check(sp.flags == fl, 'refused', 'flags changed though refused')
            E.check(len(prios(sp)) == 0, 'refused', 'tag recorded though refused')
            E.check(asked == 1, 'refused', 'throttler not asked once')
    elif zero:
        E.check(sp.flags == fl & ~3, 'cleared', 'flags not cleared')
        E.check(asked == 0, 'cleared', 'throttler asked')
    else:
        E.check(sp.flags == fl, 'not-a-number', 'flags changed by a value that is no number')
        E.check(len(prios(sp)) == 0, 'not-a-number', 'tag recorded')
        E.check(asked == 0, 'not-a-number', 'throttler asked')


def one(E, kind, throttled, n=0):
    fl = E.choose('flags', 4) | 8 * E.choose('other', 2)
    sp, th = make(E, throttled, fl)
    weird = False
    if kind == 'int':
        v = E.int('v', -(1 << 70), 1 << 70)
        pos, zero, weird = v > 0, v == 0, v < 0
    elif kind == 'float':
        v = E.float('v', -(2.0 ** 60), 2.0 ** 60, nan=True)
        pos = v >= 1.0
        zero = v == 0.0
        weird = E.Or(E.And(v > -1.0, v < 1.0, E.Not(zero)), v <= -1.0, v > 1e300)
    elif kind == 'bool':
        v = E.bool('v')
        pos, zero = v, E.Not(v)
    elif kind == 'text':
        v = E.str('v', n)
        try:
            num = int(v)
            pos, zero, weird = num > 0, num == 0, num < 0
            if num == 0:
                weird = E.And(sp.is_debug(), True)    # a non-empty text is truthy: re-enabling check comes first
        except ValueError:
            pos = zero = False
    else:
        v = E.pick('v', [None, [], [1], {}, {'a': 1}, (), (1,), Odd(), b'', b'x', 1j, float('inf'), float('-inf'), float('nan'), '', 'x', object])
        pos = zero = False
        if v == float('-inf') or v == float('inf'):
            weird = E.And(fl & 2 == 2, True)
    if pos:
        pos = True
    if zero:
        zero = True
    r = sp.set_tag(KEY, v)
    E.check(r is sp, 'chain', 'set_tag does not return the span')
    verdict(E, sp, th, fl, pos, zero, bool(weird))


def two(E, throttled):
    fl = E.choose('flags', 4) | 8 * E.choose('other', 2)
    sp, th = make(E, throttled, fl)
    v1, v2 = E.int('v1', 0, 5), E.int('v2', 0, 5)
    sp.set_tag(KEY, v1)
    mid = sp.flags
    if mid & 2 == 2:
        E.reach('mid-debug')
    a0 = len(th.calls) if th else 0
    p0 = len(prios(sp))
    sp.set_tag(KEY, v2)
    a1 = (len(th.calls) if th else 0) - a0
    p1 = len(prios(sp)) - p0
    if v2 == 0:
        E.check(sp.flags == fl & ~3, 'cleared', 'flags not cleared')
        E.check(a1 == 0 and p1 == 0, 'cleared', 'throttler asked or tag added')
    elif mid & 2 == 2:
        E.check(sp.flags == mid, 'again', 'flags changed')
        E.check(a1 == 0 and p1 == 0, 'again', 'throttler asked or tag added again')
    elif th is None or th.decision:
        E.check(sp.flags == fl | 3, 'set', 'span not sampled and debug')
        E.check(p1 == 1 and a1 == (1 if th else 0), 'set', 'tag not recorded once')
    else:
        E.check(sp.flags == mid, 'refused', 'flags changed though refused')


def before_start(E, positive):
    """given at the start of a span, the tag acts alike"""
    fl = E.choose('flags', 2)
    t = make_tracer(throttler=StubThrottler(E.bool('allow')))
    E.set_clock(lambda: 1000.0)
    v = E.int('v', 1, 1 << 70) if positive else 0
    sp = t.start_span('op', child_of=SpanContext(1, 2, 3, fl), tags={KEY: v})
    verdict(E, sp, t.throttler, fl, positive, not positive, False)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for th in (False, True):
        for k in ('int', 'float', 'bool', 'other'):
            out.append(('%s-%d' % (k, th), one, dict(kind=k, throttled=th)))
        for n in range(5 if deep else 4):
            out.append(('text%d-%d' % (n, th), one, dict(kind='text', throttled=th, n=n)))
        out.append(('two-%d' % th, two, dict(throttled=th)))
    out += [('start1', before_start, dict(positive=True)), ('start0', before_start, dict(positive=False))]
    return out
