"""C34 formats, carriers and codecs are dispatched as documented."""
from opentracing import InvalidCarrierException, UnsupportedFormatException
from jaeger_client.codecs import B3Codec, ZipkinSpanFormat
from harness.common import *

BOUNDS = ('format names: every text of 0..3, 6, 8, 12 and 18 characters and other objects; 7 kinds of wrong carriers and 8 kinds of objects that are no context with each format; full-width symbolic ids and one baggage '
          'item for spans passed as contexts; 16-bit ids next to codecs of the application and in carriers, contexts and spans of derived classes')
ASSUMPTIONS = ['the application\'s own codecs record what they are asked']
REACH = ['unsupported', 'supported', 'context', 'carrier', 'span', 'extra', 'right']
FORMATS = [Format.TEXT_MAP, Format.HTTP_HEADERS, Format.BINARY, ZipkinSpanFormat]


def new_carrier(fmt):
    return bytearray(b'zz') if fmt == Format.BINARY else {'zz': 'zz'}


def raised(E, kinds, fn, label):
    """fn fails with exactly this kind of exception"""
    try:
        fn()
    except kinds:
        return
    except Exception as e:
        E.fail(label, 'another exception: %s' % type(e).__name__)
        return
    E.fail(label, 'no exception')


def unsupported(E, n):
    t = make_tracer()
    fmt = E.str('fmt', n) if n >= 0 else E.pick('fmt', [None, 5, ('text_map',), Format])
    ctx = sym_context(E)
    car = E.pick('carrier', [None, 'dict', 'bytes'])
    car = {} if car == 'dict' else bytearray() if car == 'bytes' else 5
    known = False
    for f in FORMATS:
        if n == len(f) and fmt == f:
            known = True
            car = 5
    want = InvalidCarrierException if known else UnsupportedFormatException
    raised(E, want, lambda: t.inject(ctx, fmt, car), 'format')
    E.check(car == 5 or len(car) == 0, 'untouched', 'the carrier is changed')
    if not (known and fmt == ZipkinSpanFormat):
        raised(E, want, lambda: t.extract(fmt, car), 'format')
    else:
        raised(E, InvalidCarrierException, lambda: t.extract(fmt, car), 'format')
    E.reach('supported' if known else 'unsupported')


def context(E, fmt):
    t = make_tracer(extra_codecs={'b3': B3Codec()})
    car = new_carrier(fmt)
    before = new_carrier(fmt)

    class Like(object):
        trace_id = span_id = parent_id = flags = 1
        baggage = {}
        debug_id = None
    bad = E.pick('context', [None, 5, '1:2:3:1', (1, 2, 3, 1), {}, object(), Like(), SpanContext])
    raised(E, ValueError, lambda: t.inject(bad, fmt, car), 'context')
    E.check(car == before, 'untouched', 'the carrier is changed')
    # and goes on working
    ctx = sym_context(E, flags_hi=3, pid_lo=1)
    t.inject(ctx, fmt, car)
    E.check(len(car) > len(before), 'context', 'nothing written')
    E.reach('context')


class Part(object):
    """a carrier without one of the attributes"""

    def __init__(self, without):
        for k in ('trace_id', 'span_id', 'parent_id', 'traceflags'):
            if k != without:
                setattr(self, k, 5)


def carrier(E, fmt):
    t = make_tracer(extra_codecs={'b3': B3Codec()})
    ctx = sym_context(E, flags_hi=3, baggage={'k': 'v'})
    bad = E.pick('carrier', ['none', 'int', 'text', 'bytes', 'list', 'pairs', 'other'])
    car = {'none': None, 'int': 5, 'text': 'x', 'bytes': b'x' * 40, 'list': [], 'pairs': [('zz', 'zz')], 'other': {} if fmt == Format.BINARY else bytearray(b'x' * 40)}[bad]
    n = len(car) if hasattr(car, '__len__') else 0
    raised(E, InvalidCarrierException, lambda: t.inject(ctx, fmt, car), 'carrier')
    raised(E, InvalidCarrierException, lambda: t.extract(fmt, car), 'carrier')
    E.check(not hasattr(car, '__len__') or len(car) == n, 'untouched', 'the carrier is changed')
    if fmt == ZipkinSpanFormat:
        raised(E, InvalidCarrierException, lambda: t.extract(fmt, Part(E.pick('without', ['trace_id', 'span_id', 'parent_id', 'traceflags']))), 'carrier')
    E.reach('carrier')


def span(E, fmt):
    """a span may be given for its context"""
    E.set_clock(lambda: 1.5)
    t = make_tracer(extra_codecs={'b3': B3Codec()})
    ctx = sym_context(E, flags_hi=3, pid_lo=1, baggage={'k': E.str('v', 1, chars=ASCII)})
    sp = Span(ctx, t, 'op')
    a, b = new_carrier(fmt), new_carrier(fmt)
    t.inject(sp, fmt, a)
    t.inject(ctx, fmt, b)
    E.check(a == b, 'span', 'span and context are written differently')
    if E.choose('changed', 2):
        sp.set_baggage_item('k', 'other')
        a, b = new_carrier(fmt), new_carrier(fmt)
        t.inject(sp, fmt, a)
        t.inject(sp.context, fmt, b)
        E.check(a == b, 'span', 'span and context are written differently')
    E.reach('span')


class SubDict(dict):
    pass


class SubContext(SpanContext):
    pass


class SubSpan(Span):
    pass


class Items(object):
    """no dictionary, but with items"""

    def __init__(self, d):
        self.d = d

    def items(self):
        return list(self.d.items())


class Whole(object):
    """a carrier with the attributes of the Zipkin format"""

    def __init__(self, d):
        for k in d:
            setattr(self, k, d[k])


def right(E, fmt):
    """carriers, contexts and spans of derived classes are as good as any"""
    import collections
    E.set_clock(lambda: 1.5)
    t = make_tracer(extra_codecs={'b3': B3Codec()})
    ids = (E.int('trace_id', 1, 0xffff), E.int('span_id', 1, 255), E.int('parent_id', 1, 15), E.int('flags', 0, 1))
    what = E.pick('what', ['context', 'derived', 'span', 'derived span', 'finished'])
    ctx = (SubContext if what == 'derived' else SpanContext)(trace_id=ids[0], span_id=ids[1], parent_id=ids[2], flags=ids[3])
    x = ctx
    if 'span' in what or what == 'finished':
        x = (SubSpan if 'derived' in what else Span)(ctx, t, 'op')
        if what == 'finished':
            x.finish()
    if fmt == Format.BINARY:
        car = bytearray()
    else:
        car = E.pick('carrier', [dict, SubDict, collections.OrderedDict, lambda: collections.defaultdict(str)])()
    t.inject(x, fmt, car)
    got = [t.extract(fmt, car)]
    if fmt in (Format.TEXT_MAP, Format.HTTP_HEADERS):
        got.append(t.extract(fmt, Items(car)))
    if fmt == ZipkinSpanFormat:
        got.append(t.extract(fmt, Whole(car)))
    for g in got:
        if g is None:
            E.fail('right', 'context lost')
        else:
            same_ids(E, g, ids[0], ids[1], ids[2], ids[3])
    E.reach('right')


class Own(object):
    """a codec of the application"""

    def __init__(self, answer):
        self.log, self.answer = [], answer

    def inject(self, span_context, carrier):
        self.log.append(('inject', span_context, carrier))

    def extract(self, carrier):
        self.log.append(('extract', carrier))
        return self.answer


def extra(E, fmt):
    ctx = SpanContext(E.int('trace_id', 1, 0xffff), E.int('span_id', 1, 255), E.int('parent_id', 1, 15), E.int('flags', 0, 3))
    own = Own(E.pick('answer', [None, ctx, 5]))
    given = {fmt: own}
    t = make_tracer(extra_codecs=given)
    plain = make_tracer()
    car = object()
    t.inject(ctx, fmt, car)
    got = t.extract(fmt, car)
    E.check(len(own.log) == 2 and own.log[0][0] == 'inject' and own.log[0][1] is ctx and own.log[0][2] is car and own.log[1] == ('extract', car), 'extra', 'not asked')
    E.check(got is own.answer, 'extra', 'the answer is changed')
    E.check(list(given) == [fmt], 'untouched', 'the codecs given are changed')
    # every other format, and every other tracer, is as before
    for f in FORMATS:
        for tr in (t, plain):
            if tr is t and f == fmt:
                continue
            c = bytearray() if f == Format.BINARY else {}
            tr.inject(ctx, f, c)
            x = tr.extract(f, c)
            same_ids(E, x, ctx.trace_id, ctx.span_id, ctx.parent_id, ctx.flags)
    if fmt not in FORMATS:
        raised(E, UnsupportedFormatException, lambda: plain.inject(ctx, fmt, {}), 'extra')
        raised(E, UnsupportedFormatException, lambda: plain.extract(fmt, {}), 'extra')
    E.check(len(own.log) == 2, 'extra', 'asked again')
    E.reach('extra')


def scenarios(tier):
    r = [('unsupported%s' % n, unsupported, dict(n=n)) for n in (-1, 0, 1, 3, 6, 8, 12, 18)]
    for f in FORMATS + ['b3']:
        r.append(('context-%s' % f, context, dict(fmt=f)))
        r.append(('carrier-%s' % f, carrier, dict(fmt=f)))
        r.append(('span-%s' % f, span, dict(fmt=f)))
        r.append(('right-%s' % f, right, dict(fmt=f)))
    for f in FORMATS + ['mine', 7]:
        r.append(('extra-%s' % f, extra, dict(fmt=f)))
    return r
