"""C07 Zipkin/TChannel propagation."""
from opentracing import InvalidCarrierException
from jaeger_client.codecs import ZipkinSpanFormat
from harness.common import *

BOUNDS = 'trace id 0..2^128-1, span id and parent id 0..2^64-1, flags 0..2^64-1: all values; two contexts in turn, in one carrier or two; carrier a dictionary or an object with any subset of the four fields, possibly with foreign entries (any name of 7..9 letters, - or _)'
ASSUMPTIONS = []
REACH = ['trace-id', 'parent-id', 'flags', 'none', 'refused']


FIELDS = ['parent_id', 'span_id', 'trace_id', 'traceflags']


class Carrier(object):
    pass


def roundtrip(E, as_object):
    t = make_tracer()
    tid = E.int('trace_id', 1, U128)
    sid = E.int('span_id', 1, U64)
    pid = E.int('parent_id', 0, U64)
    fl = E.int('flags', 0, U64)
    carrier = E.pick('before', [{}, {'other': 'x', 'traceid': 5}])
    extra = len(carrier)
    t.inject(SpanContext(trace_id=tid, span_id=sid, parent_id=pid, flags=fl), ZipkinSpanFormat, carrier)
    E.check(len(carrier) == 4 + extra, 'fields', 'carrier fields')
    E.check(all(f in carrier for f in FIELDS), 'fields', 'carrier fields')
    if as_object:
        c = Carrier()
        for k, v in carrier.items():
            setattr(c, k, v)
        carrier = c
    got = t.extract(ZipkinSpanFormat, carrier)
    if got is None:
        E.fail('lost', 'context lost')
        return
    same_ids(E, got, tid, sid, pid, fl)
    E.check(len(got.baggage) == 0, 'baggage', 'baggage out of nowhere')


def missing(E):
    """an object lacking a field is refused, a carrier without trace id gives nothing"""
    t = make_tracer()
    fields = ['trace_id', 'span_id', 'parent_id', 'traceflags']
    k = E.choose('missing', 4)
    c = Carrier()
    for f in fields:
        if f != fields[k]:
            setattr(c, f, E.int(f, 1, U64))
    try:
        t.extract(ZipkinSpanFormat, c)
        E.fail('refused', 'object without %s accepted' % fields[k])
    except InvalidCarrierException:
        E.reach('refused')


def no_trace(E, as_object):
    t = make_tracer()
    tid = E.pick('tid', [None, 0])
    sid, fl = E.int('span_id', 0, U64), E.int('flags', 0, 255)
    if as_object:
        c = Carrier()
        c.trace_id, c.span_id, c.parent_id, c.traceflags = tid, sid, None, fl
    else:
        c = {}
        if E.choose('has_span', 2):
            c['span_id'] = sid
        if E.choose('has_flags', 2):
            c['traceflags'] = fl
        if E.choose('has_parent', 2):
            c['parent_id'] = E.int('parent_id', 0, U64)
        if tid is not None or E.choose('present', 2):
            c['trace_id'] = tid
        if E.choose('foreign', 2):
            k = E.str('key', (7, 9), chars=[(0x2d, 0x2d), (0x5f, 0x5f), (0x41, 0x5a), (0x61, 0x7a)])
            E.assume(k != 'trace_id')
            c[k] = E.int('value', 1, U64)
    E.check(t.extract(ZipkinSpanFormat, c) is None, 'none', 'context out of nowhere')


def wrong(E):
    t = make_tracer()
    c = E.pick('c', [None, [], 'x'])
    try:
        t.inject(SpanContext(1, 1, None, 1), ZipkinSpanFormat, c)
        E.fail('refused', 'invalid carrier accepted')
    except InvalidCarrierException:
        E.reach('refused')


def again(E, reuse):
    repeat(E, make_tracer(), ZipkinSpanFormat, dict, reuse, 255, False)


def scenarios(tier):
    return [('dict', roundtrip, dict(as_object=False)), ('object', roundtrip, dict(as_object=True)), ('missing', missing, {}),
            ('none-dict', no_trace, dict(as_object=False)), ('none-object', no_trace, dict(as_object=True)), ('wrong', wrong, {}),
            ('repeat0', again, dict(reuse=False)), ('repeat1', again, dict(reuse=True))]
