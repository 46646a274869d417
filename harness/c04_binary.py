"""C04 binary propagation round-trips the context and has the layout of the Go client."""
import struct
from harness.common import *

BOUNDS = ('trace id 1..2^128-1, span id 1..2^64-1, parent id 0..2^64-1, flags 0..255: all values; 0..3 baggage items; one item: keys of 0..2 and values '
          'of 0..2 (thorough 3) arbitrary Unicode characters, values of 3..5 (8) characters below U+0800; two items: one-character keys, values of 0..1 characters '
          'below U+0800 (thorough: any); three: ASCII (thorough: below U+0800); two contexts in turn; 300 items; a value of 2^17 characters')
ASSUMPTIONS = ['struct.pack/unpack and UTF-8 modelled exactly']
REACH = ['layout', 'baggage', 'trace-id', 'parent-id', 'items']


def be(x, n):
    return [(x >> (8 * (n - 1 - i))) & 0xff for i in range(n)]


LATIN = [(0, 0x7ff)]


def roundtrip(E, items, klen, vlen, chars=None):
    t = make_tracer()
    tid = E.int('trace_id', 1, U128)
    sid = E.int('span_id', 1, U64)
    pid = E.int('parent_id', 0 if items < 2 else 1, U64)
    fl = E.int('flags', 0, 255)
    bag, want = {}, []
    for i in range(items):
        k = E.str('key%d' % i, klen, chars=chars)
        v = E.str('val%d' % i, vlen, chars=chars)
        for kk, _ in want:
            E.assume(kk != k)
        bag[k] = v
        want.append((k, v))
    ctx = SpanContext(trace_id=tid, span_id=sid, parent_id=pid, flags=fl, baggage=bag)
    carrier = E.bytearray()
    t.inject(ctx, Format.BINARY, carrier)
    ref = be(tid >> 64, 8) + be(tid & U64, 8) + be(sid, 8) + be(pid, 8) + [fl] + be(items, 4)
    for k, v in want:
        for s in (k, v):
            b = s.encode('utf-8')
            ref = ref + be(len(b), 4) + [x for x in b]
    E.check(len(carrier) == len(ref), 'layout', 'length differs')
    same = True
    if len(carrier) == len(ref):
        same = E.And(*[carrier[i] == ref[i] for i in range(len(ref))])
    E.check(same, 'layout', 'bytes differ from the documented layout')
    got = t.extract(Format.BINARY, carrier)
    if got is None:
        E.fail('lost', 'context lost')
        return
    same_ids(E, got, tid, sid, pid, fl)
    same_baggage(E, got.baggage, want)
    E.reach('items')
    E.observe('n', len(carrier))


def from_go(E, items, chars=None):
    """bytes as the Go client writes them are read back"""
    t = make_tracer()
    tid = E.int('trace_id', 1, U128)
    sid = E.int('span_id', 1, U64)
    pid = E.int('parent_id', 0, U64)
    fl = E.int('flags', 0, 255)
    ref = struct.pack('>QQQQBI', tid >> 64, tid & U64, sid, pid, fl, items)
    want = []
    for i in range(items):
        k = E.str('key%d' % i, 1, chars=chars)
        v = E.str('val%d' % i, 1, chars=chars)
        for kk, _ in want:
            E.assume(kk != k)
        want.append((k, v))
        for s in (k, v):
            b = s.encode('utf-8')
            ref = ref + struct.pack('>I', len(b)) + b
    carrier = E.bytearray(ref)
    got = t.extract(Format.BINARY, carrier)
    if got is None:
        E.fail('lost', 'context lost')
        return
    same_ids(E, got, tid, sid, pid, fl)
    same_baggage(E, got.baggage, want)


def large(E, items, filler):
    """many items, one of them long: nothing is capped, cut or dropped"""
    t = make_tracer()
    tid = E.int('trace_id', 1, U128)
    bag, want = {}, []
    for i in range(items):
        v = 'v%d' % i
        if i in (1, items - 1):
            v = E.str('val%d' % i, 1, chars=AZ)
        if i == items // 2:
            v = E.str('head', 1, chars=AZ) + 'ab c' * (filler // 4) + E.str('tail', 1, chars=AZ)
        bag['k%d' % i] = v
        want.append(('k%d' % i, v))
    carrier = E.bytearray()
    t.inject(SpanContext(trace_id=tid, span_id=7, parent_id=5, flags=1, baggage=bag), Format.BINARY, carrier)
    size = 37
    for k, v in want:
        size = size + 8 + len(k) + len(v.encode('utf-8'))
    E.check(len(carrier) == size, 'layout', 'length differs')
    got = t.extract(Format.BINARY, carrier)
    if got is None:
        E.fail('lost', 'context lost')
        return
    same_ids(E, got, tid, 7, 5, 1)
    same_baggage(E, got.baggage, want)


def wrong_carrier(E):
    """anything but a bytearray is refused as invalid carrier"""
    from opentracing import InvalidCarrierException
    t = make_tracer()
    c = E.pick('c', [None, {}, b'', 'x', []])
    for op in (0, 1):
        try:
            if op:
                t.inject(SpanContext(1, 1, None, 1), Format.BINARY, c)
            else:
                t.extract(Format.BINARY, c)
            E.fail('carrier', 'invalid carrier accepted')
        except InvalidCarrierException:
            E.reach('carrier')


def again(E):
    repeat(E, make_tracer(), Format.BINARY, E.bytearray, False, 255, True)


def scenarios(tier):
    deep = tier == 'thorough'
    out = [('ids', roundtrip, dict(items=0, klen=1, vlen=1)),
           ('key', roundtrip, dict(items=1, klen=(0, 2), vlen=0)),
           ('value', roundtrip, dict(items=1, klen=1, vlen=(0, 3) if deep else (0, 2))),
           ('long', roundtrip, dict(items=1, klen=1, vlen=(3, 8 if deep else 5), chars=LATIN)),
           ('two', roundtrip, dict(items=2, klen=1, vlen=(0, 1), chars=None if deep else LATIN)),
           ('three', roundtrip, dict(items=3, klen=1, vlen=1, chars=LATIN if deep else [(0, 0x7f)])),
           ('go0', from_go, dict(items=0)), ('go1', from_go, dict(items=1)),
           ('go2', from_go, dict(items=2, chars=None if deep else LATIN)),
           ('many', large, dict(items=300, filler=8)), ('huge', large, dict(items=2, filler=1 << 17)),
           ('repeat', again, {}), ('carrier', wrong_carrier, {})]
    return out
