"""C06 B3 propagation."""
from opentracing import InvalidCarrierException
from jaeger_client.codecs import B3Codec
from harness.common import *

BOUNDS = ('trace id 1..2^128-1, span id 1..2^64-1, parent id 0..2^64-1: all values; flags 0..3 (sampled and debug bits); both trace-id widths; two contexts in turn; header names as '
          'injected, upper or lower case; id header text: all texts of 0..4 (thorough 6) Unicode characters in each of the three headers, and 16/32 (thorough up to 63) digits with one arbitrary character before, within or after them; sampled/debug header text of 0..2 characters')
ASSUMPTIONS = ['an id field counts as a number when int(field, 16) reads it as non-negative; only plain hexadecimal digits must be accepted',
               'the codec is registered under a format of its own through extra_codecs']
REACH = ['trace-id', 'parent-id', 'flags', 'width', 'root', 'none', 'corrupted', 'bits']
FMT = 'b3'


def tracer(wide):
    return make_tracer(extra_codecs={FMT: B3Codec(generate_128bit_trace_id=wide)}, generate_128bit_trace_id=wide)


def hexform(E, text, widths):
    """text is a lower-case hexadecimal number of one of the given widths"""
    E.check(E.Or(*[len(text) == w for w in widths]), 'width', 'number of digits')
    for c in text:
        o = ord(c)
        E.check(E.Or(E.And(o >= 0x30, o <= 0x39), E.And(o >= 0x61, o <= 0x66)), 'width', 'not a lower-case hexadecimal digit')


def recase(E, carrier):
    how = E.choose('casing', 3)
    out = {}
    for k, v in carrier.items():
        out[k if how == 0 else (k.upper() if how == 1 else k.lower())] = v
    return out


def roundtrip(E, wide, form):
    t = tracer(wide)
    tid = E.int('trace_id', 1, U128)
    sid = E.int('span_id', 1, U64)
    pid = E.int('parent_id', 0, U64)
    sampled, debug = E.choose('sampled', 2), E.choose('debug', 2)
    fl = sampled | (debug << 1)
    carrier = {}
    t.inject(SpanContext(trace_id=tid, span_id=sid, parent_id=pid, flags=fl), FMT, carrier)
    low = {}
    for k, v in carrier.items():
        low[k.lower()] = v
    E.check('x-b3-traceid' in low and 'x-b3-spanid' in low, 'width', 'id header missing')
    if form:
        hexform(E, low['x-b3-traceid'], (16, 32))
        hexform(E, low['x-b3-spanid'], (16,))
        if 'x-b3-parentspanid' in low:
            hexform(E, low['x-b3-parentspanid'], (16,))
        return
    if 'x-b3-parentspanid' in low:
        E.check(pid != 0, 'root', 'parent header for a root')
    else:
        E.check(pid == 0, 'root', 'no parent header')
    got = t.extract(FMT, recase(E, carrier))
    if got is None:
        E.fail('lost', 'context lost')
        return
    same_ids(E, got, tid, sid, pid, fl)


def value_of(E, f):
    """the number in an id header (None: not a number)"""
    try:
        v = int(f, 16)
    except ValueError:
        return None
    return v


def plain(E, f):
    if len(f) == 0:
        return False
    ok = []
    for c in f:
        o = ord(c)
        ok.append(E.Or(E.And(o >= 0x30, o <= 0x39), E.And(o >= 0x41, o <= 0x46), E.And(o >= 0x61, o <= 0x66)))
    return E.And(*ok)


def longid(E, which, total, at):
    """an id of more digits than usual: taken whole, never cut"""
    text(E, which, None, 'd' * at + E.str('text', 1) + 'e' * (total - at - 1))


def text(E, which, n, h=None):
    """arbitrary text in one id header, the others valid"""
    t = tracer(False)
    h = E.str('text', n) if h is None else h
    names = ['x-b3-traceid', 'x-b3-spanid', 'x-b3-parentspanid']
    carrier = {}
    for i, k in enumerate(names):
        carrier[k] = h if i == which else '00000000000000%d0' % (i + 1)
    try:
        got, err = t.extract(FMT, carrier), False
    except SpanContextCorruptedException:
        got, err = None, True
    v = value_of(E, h)
    if err:
        E.check(E.Not(plain(E, h)), 'accepted', 'hexadecimal id refused')
        E.reach('corrupted')
        return
    if v is None:
        E.fail('corrupted', 'non-hexadecimal id accepted')
        return
    E.check(v >= 0, 'corrupted', 'negative id accepted')
    if got is None:
        E.check(E.And(v == 0, which != 2), 'none', 'context lost')
        return
    E.check(E.Or(v != 0, which == 2), 'none', 'zero id accepted')
    got_v = [got.trace_id, got.span_id, got.parent_id][which]
    if got_v is None:
        E.check(v == 0, 'text-value', 'parent lost')
    else:
        E.check(got_v == v, 'text-value', 'id differs')


def bits(E, n):
    """only '1' sets a bit; absent ids give no context; None values are skipped; unrelated headers change nothing"""
    t = tracer(False)
    tid = E.int('trace_id', 0, U128)
    sid = E.int('span_id', 0, U64)
    s = E.str('sampled', n)
    d = E.str('debug', n)
    headers = []
    has_t, has_s = E.choose('has_trace', 3), E.choose('has_span', 3)
    if has_t:
        headers.append(('X-B3-TraceId', '{:032x}'.format(tid) if has_t == 1 else None))
    if has_s:
        headers.append(('X-B3-SpanId', '{:016x}'.format(sid) if has_s == 1 else None))
    headers.append(('X-B3-Sampled', s))
    headers.append(('X-B3-Flags', d))
    headers.append(('X-B3-Other', '1'))
    if E.choose('reverse', 2):
        headers.reverse()
    carrier = {}
    for k, v in headers:
        carrier[k] = v
    got = t.extract(FMT, recase(E, carrier))
    present = has_t == 1 and has_s == 1
    if got is None:
        E.check(E.Or(not present, tid == 0, sid == 0), 'none', 'context lost')
        return
    E.check(E.And(present, tid != 0, sid != 0), 'none', 'context out of nowhere')
    E.check(E.And(got.trace_id == tid, got.span_id == sid), 'bits', 'ids differ')
    E.check(got.parent_id is None, 'bits', 'parent out of nowhere')
    E.check((got.flags & 1 == 1) == (s == '1'), 'bits', 'sampled bit differs')
    E.check((got.flags & 2 == 2) == (d == '1'), 'bits', 'debug bit differs')
    E.check(got.flags & ~3 == 0, 'bits', 'other flags set')


def carriers(E):
    t = tracer(False)
    c = E.pick('c', [None, [], 'x', bytearray()])
    for op in (0, 1):
        try:
            if op:
                t.inject(SpanContext(1, 1, None, 1), FMT, c)
            else:
                t.extract(FMT, c)
            E.fail('carrier', 'invalid carrier accepted')
        except InvalidCarrierException:
            E.reach('carrier')
    v = E.pick('v', [5, [], 1.5, b'a', (), ('1', '2'), {}, True, bytearray(b'1')])
    where = E.choose('where', 3)
    try:
        t.extract(FMT, {'x-b3-traceid': v if where == 0 else '1', 'x-b3-spanid': v if where == 1 else '1', 'x-b3-parentspanid': v if where == 2 else '1'})
        E.fail('corrupted', 'non-text id accepted')
    except SpanContextCorruptedException:
        E.reach('corrupted')


def again(E, wide):
    repeat(E, tracer(wide), FMT, dict, False, 3, False)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for wide in (False, True):
        out.append(('roundtrip%d' % wide, roundtrip, dict(wide=wide, form=False)))
        out.append(('form%d' % wide, roundtrip, dict(wide=wide, form=True)))
    for which in range(3):
        for n in range(7 if deep else 5):
            out.append(('text%d-%d' % (which, n), text, dict(which=which, n=n)))
    for which in range(3):
        for total in ((17, 32, 33, 40, 64) if deep else (17, 33)):
            for at in (0, 5, total - 1):
                out.append(('long%d-%d-%d' % (which, total, at), longid, dict(which=which, total=total, at=at)))
    for n in range(4 if deep else 3):
        out.append(('bits%d' % n, bits, dict(n=n)))
    for wide in (False, True):
        out.append(('repeat%d' % wide, again, dict(wide=wide)))
    out.append(('carriers', carriers, {}))
    return out
