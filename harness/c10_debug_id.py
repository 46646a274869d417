"""C10 a debug id forces a debug trace only when the throttler allows it."""
from harness.common import *

BOUNDS = ('debug id of 1..2 (thorough 3) arbitrary Unicode characters, or of 92, 302 or 902 characters with an arbitrary first and last letter, operation name of 0..2 characters, throttler absent, allowing or refusing, '
          'header name default or custom, with or without baggage and own tags (also one named like the header), context extracted from text map / HTTP headers or built directly; all random draws')
ASSUMPTIONS = ['throttler replaced by a stub returning an arbitrary decision']
REACH = ['allowed', 'refused', 'asked', 'tag', 'root', 'ordinary']


def debug(E, via, throttled, n):
    name = E.pick('header', ['jaeger-debug-id', 'correlation-id', 'my-debug'])
    th = StubThrottler(E.bool('allow')) if throttled else None
    s = StubSampler(E.bool('decision'))
    rep = RecordingReporter()
    t = make_tracer(reporter=rep, sampler=s, debug_id_header=name, throttler=th)
    E.symbolic_random()
    E.set_clock(lambda: 1000.0)
    d = E.str('debug', n)
    bag = E.choose('baggage', 2)
    if via == 'direct':
        ctx = SpanContext(None, None, None, None, baggage={'k': 'v'} if bag else None, debug_id=d)
    else:
        fmt = Format.TEXT_MAP
        v = d
        if via == 'http':
            import urllib.parse
            fmt, v = Format.HTTP_HEADERS, urllib.parse.quote(d)
        carrier = {name.upper(): v}
        if bag:
            carrier['uberctx-k'] = 'v'
        ctx = t.extract(fmt, carrier)
    op = E.str('op', (0, 1 if via == 'http' else 2))
    own = E.choose('own', 3)
    sp = t.start_span(op, child_of=ctx, tags=[None, {'a': 1, name: 'mine'}, {'span.kind': 'server'}][own])
    allowed = True
    if throttled:
        allowed = th.decision
        E.check(len(th.calls) == 1, 'asked', 'throttler asked %d times' % len(th.calls))
        if len(th.calls) == 1:
            E.check(th.calls[0] == op, 'asked', 'throttler asked about another operation')
    E.check(sp.parent_id is None, 'root', 'debug span has a parent')
    E.check(sp.is_debug() == allowed, 'debug-bit', 'debug bit differs from the decision of the throttler')
    if allowed:
        E.check(sp.flags == 3, 'allowed', 'flags of a debug trace')
        E.check(len(s.calls) == 0, 'allowed', 'sampler consulted for a debug trace')
        tg = [x for x in sp.tags if x.key == name]
        E.check(len(tg) == 1, 'tag', 'debug id tag missing')
        if len(tg) == 1:
            E.check(tg[0].vStr == d, 'tag', 'debug id tag differs')
        sp.finish()
        E.check(len(rep.spans) == 1, 'allowed', 'debug span not reported')
        # children stay debug and do not ask again
        n0 = len(th.calls) if throttled else 0
        c = t.start_span('child', child_of=sp)
        E.check(c.flags == 3 and len(s.calls) == 0, 'allowed', 'child of a debug span is not debug')
        E.check(not throttled or len(th.calls) == n0, 'asked', 'throttler asked for a child')
    else:
        E.reach('refused')
        E.check(len([x for x in sp.tags if x.key == name]) == (1 if own == 1 and sp.is_sampled() else 0), 'refused', 'debug id tag on a refused span')
    if bag:
        E.check(sp.get_baggage_item('k') == 'v', 'baggage', 'baggage lost')


def long(E, via, n):
    """a debug id of any length is tagged up to the limit that holds for every tag"""
    rep = RecordingReporter()
    t = make_tracer(reporter=rep, sampler=StubSampler(False), max_tag_value_length=10000)
    E.symbolic_random()
    E.set_clock(lambda: 1000.0)
    d = E.str('head', 1, chars=AZ) + 'ab-' * n + E.str('tail', 1, chars=AZ)
    if via == 'direct':
        ctx = SpanContext.with_debug_id(d)
    else:
        ctx = t.extract(Format.TEXT_MAP if via == 'text' else Format.HTTP_HEADERS, {'jaeger-debug-id': d})
    sp = t.start_span('op', child_of=ctx)
    E.check(sp.flags == 3, 'allowed', 'flags of a debug trace')
    tg = [x for x in sp.tags if x.key == 'jaeger-debug-id']
    E.check(len(tg) == 1, 'tag', 'debug id tag missing')
    E.check(tg[0].vStr == d, 'tag', 'debug id tag differs')


def ordinary(E):
    """without a debug id, or below a real parent, the throttler is never asked and nothing becomes debug"""
    th = StubThrottler(E.bool('allow'))
    t = make_tracer(sampler=StubSampler(E.bool('decision')), throttler=th)
    E.symbolic_random()
    kind = E.choose('kind', 4)
    fl = E.int('flags', 0, 255)
    d = E.str('debug', 1)
    ctx = [None, SpanContext(None, None, None, None, baggage={'k': 'v'}), SpanContext(5, 6, None, fl, debug_id=d), SpanContext(5, 6, 7, fl)][kind]
    sp = t.start_span('op', child_of=ctx)
    E.check(len(th.calls) == 0, 'ordinary', 'throttler asked without need')
    if kind < 2:
        E.check(E.Not(sp.is_debug()), 'ordinary', 'debug out of nowhere')
    else:
        E.check(sp.flags == fl, 'ordinary', 'flags of the parent not inherited')


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for via in ('direct', 'text', 'http'):
        for th in (True, False):
            out.append(('%s-%d' % (via, th), debug, dict(via=via, throttled=th, n=(1, 3) if deep else ((1, 2) if via != 'http' else 1))))
    for via in ('direct', 'text', 'http'):
        for n in (30, 100, 300):
            out.append(('long-%s%d' % (via, n), long, dict(via=via, n=n)))
    out.append(('ordinary', ordinary, {}))
    return out
