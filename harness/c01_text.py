"""C01 text-map and HTTP-header propagation round-trips the span context."""
from harness.common import *

BOUNDS = ('trace id 1..2^128-1, span id 1..2^64-1, parent id 0..2^64-1, flags 0..255: all values; 0..2 baggage items, keys of 1..3 '
          'printable ASCII characters (HTTP: token characters; distinct when lower-cased), values of 0..3 arbitrary Unicode scalar values (one item) or 1 '
          '(two items; thorough: 0..2); header names re-cased (as injected, upper, lower); default and two custom header '
          'configurations; both formats; two contexts in turn through one carrier or two; one context of 300 items with a value of 2^17 (HTTP: 2^14) characters')
ASSUMPTIONS = ['baggage keys are ASCII, under HTTP tokens; header names themselves do not collide',
               'urllib.parse.quote/unquote modelled on UTF-8 bytes']
REACH = ['trace-id', 'parent-id', 'flags', 'baggage', 'ascii']

CONFIGS = [
    {},
    {'trace_id_header': 'My_Trace-ID', 'baggage_header_prefix': 'X_Bag-', 'debug_id_header': 'My-Debug'},
    {'trace_id_header': 'x', 'baggage_header_prefix': 'B', 'debug_id_header': 'd-b-g'},
]


def recase(E, carrier, how):
    if how is None:
        how = E.choose('casing', 3)
    if how == 0:
        return carrier
    out = {}
    for k, v in carrier.items():
        out[k.upper() if how == 1 else k.lower()] = v
    return out


def roundtrip(E, fmt, cfg, items, vlen, klen, how=None):
    t = make_tracer(**CONFIGS[cfg])
    tid = E.int('trace_id', 1, U128)
    sid = E.int('span_id', 1, U64)
    pid = E.int('parent_id', 0, U64)
    fl = E.int('flags', 0, 255)
    bag = {}
    expect = []
    for i in range(items):
        k = E.str('key%d' % i, klen, chars=ASCII if fmt == Format.TEXT_MAP else TOKEN)
        v = E.str('val%d' % i, vlen)
        if i:
            E.assume(k.lower() != expect[0][0])
        bag[k] = v
        expect.append((k.lower(), v))
    if cfg == 2:
        # a one-letter prefix must not turn the other headers into baggage and vice versa
        pass
    ctx = SpanContext(trace_id=tid, span_id=sid, parent_id=pid, flags=fl, baggage=bag)
    carrier = {}
    t.inject(ctx, fmt, carrier)
    E.check(len(carrier) == 1 + items, 'carrier', 'one header per item')
    if fmt == Format.HTTP_HEADERS:
        name = CONFIGS[cfg].get('trace_id_header', 'uber-trace-id').lower().replace('_', '-')
        for k, v in carrier.items():
            if k == name:
                continue
            for c in v:
                E.check(E.And(ord(c) > 0x20, ord(c) < 0x7f), 'ascii', 'header value is not printable ASCII')
    got = t.extract(fmt, recase(E, carrier, how))
    if got is None:
        E.fail('lost', 'injected context not extracted')
        return
    same_ids(E, got, tid, sid, pid, fl)
    same_baggage(E, got.baggage, expect)
    E.check(got.debug_id is None, 'debug-id', 'debug id out of nowhere')
    E.observe('tid', got.trace_id)
    E.observe('bag', [got.baggage[k] for k in got.baggage])


def large(E, fmt, items, filler):
    """many items, one of them long: nothing is capped, cut or dropped"""
    t = make_tracer()
    tid = E.int('trace_id', 1, U128)
    bag, expect = {}, []
    for i in range(items):
        v = 'v%d' % i
        if i in (1, items - 1):
            v = E.str('val%d' % i, 1, chars=AZ)
        if i == items // 2:
            v = E.str('head', 1, chars=AZ) + 'ab c' * (filler // 4) + E.str('tail', 1, chars=AZ)
        bag['k%d' % i] = v
        expect.append(('k%d' % i, v))
    ctx = SpanContext(trace_id=tid, span_id=7, parent_id=5, flags=1, baggage=bag)
    carrier = {}
    t.inject(ctx, fmt, carrier)
    E.check(len(carrier) == 1 + items, 'carrier', 'one header per item')
    got = t.extract(fmt, carrier)
    if got is None:
        E.fail('lost', 'injected context not extracted')
        return
    same_ids(E, got, tid, 7, 5, 1)
    same_baggage(E, got.baggage, expect)


def span_roundtrip(E, fmt):
    """A live span can be injected too; a foreign context is refused."""
    t = make_tracer()
    E.symbolic_random()
    sp = t.start_span('op')
    E.assume(E.And(sp.trace_id > 0, sp.span_id > 0))
    k, v = E.str('key', 2, chars=TOKEN), E.str('val', 1)
    sp.set_baggage_item(k, v)
    carrier = {}
    t.inject(sp, fmt, carrier)
    got = t.extract(fmt, carrier)
    same_ids(E, got, sp.trace_id, sp.span_id, 0, sp.flags)
    same_baggage(E, got.baggage, [(k.lower(), v)])


def again(E, fmt, reuse):
    repeat(E, make_tracer(), fmt, dict, reuse, 255, True)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for fmt, n in ((Format.TEXT_MAP, 'text'), (Format.HTTP_HEADERS, 'http')):
        h = n == 'http'
        for cfg in range(3):
            out.append(('%s-cfg%d-0' % (n, cfg), roundtrip, dict(fmt=fmt, cfg=cfg, items=0, vlen=0, klen=1)))
            out.append(('%s-cfg%d-1' % (n, cfg), roundtrip,
                        dict(fmt=fmt, cfg=cfg, items=1, vlen=(0, 1 if h and not deep else 3), klen=(1, 3))))
            if h:
                out.append(('%s-cfg%d-long' % (n, cfg), roundtrip,
                            dict(fmt=fmt, cfg=cfg, items=1, vlen=3 if cfg == 0 else 2, klen=1, how=0)))
        out.append(('%s-two' % n, roundtrip, dict(fmt=fmt, cfg=0, items=2, vlen=(0, 2) if deep else 1,
                                                  klen=(1, 3) if deep else 1, how=None if deep else 0)))
        out.append(('%s-large' % n, large, dict(fmt=fmt, items=300, filler=(1 << 14) if h else (1 << 17))))
        for reuse in (False, True):
            out.append(('%s-repeat%d' % (n, reuse), again, dict(fmt=fmt, reuse=reuse)))
        out.append(('%s-span' % n, span_roundtrip, dict(fmt=fmt)))
    return out
