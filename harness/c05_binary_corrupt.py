"""C05 binary extraction from arbitrary bytes: the layout's fields or a corruption error, bounded work."""
from harness.common import *

BOUNDS = ('all byte buffers of 0..40 bytes, plus fixed-size header followed by 0..12 (thorough 16) arbitrary bytes with an arbitrary item count, plus '
          'well-formed buffers of 300 items and of one value of 16384 bytes with one arbitrary byte in a length, key or value, whole or cut; '
          'work bound: no loop passes 4096 iterations')
ASSUMPTIONS = ['struct.unpack and UTF-8 decoding modelled exactly']
REACH = ['fields', 'refused', 'accepted']


def be(E, bs):
    n = 0
    for b in bs:
        n = n * 256 + b
    return n


def reference(E, buf):
    """(trace id, span id, parent id, flags, items) or None when the buffer is no complete encoding"""
    if len(buf) < 37:
        return None
    count = be(E, buf[33:37])
    pos = 37
    items = []
    while len(items) < count:
        kv = []
        for _ in range(2):
            if len(buf) - pos < 4:
                return None
            n = be(E, buf[pos:pos + 4])
            pos += 4
            if n > len(buf) - pos:
                return None
            raw = buf[pos:pos + n]
            pos += len(raw)
            try:
                kv.append(bytes(raw).decode('utf-8'))
            except UnicodeDecodeError:
                return None
        items.append(kv)
    return be(E, buf[0:16]), be(E, buf[16:24]), be(E, buf[24:32]), buf[32], items


def arbitrary(E, n, head=None):
    t = make_tracer()
    if head is None:
        buf = E.bytes('buf', n)
    else:
        fl = E.int('flags', 0, 255)
        import struct
        buf = struct.pack('>QQQQBI', 0, 7, 5, 0, fl, E.int('count', 0, head)) + E.bytes('buf', n)
    carrier = E.bytearray(buf)
    try:
        got = t.extract(Format.BINARY, carrier)
        err = False
    except SpanContextCorruptedException:
        got, err = None, True
    ref = reference(E, buf)
    if ref is None:
        E.check(err, 'refused', 'incomplete or undecodable buffer accepted')
        return
    tid, sid, pid, fl, items = ref
    if err:
        # a context without trace or span id is no valid context: refusing it is fine
        E.check(E.Or(tid == 0, sid == 0), 'accepted', 'well-formed buffer refused')
        return
    E.reach('accepted')
    if got is None:
        E.check(E.Or(tid == 0, sid == 0), 'accepted', 'well-formed buffer ignored')
        return
    E.check(E.And(got.trace_id == tid, got.span_id == sid, got.flags == fl), 'fields', 'ids or flags differ')
    E.check((pid == 0) if got.parent_id is None else (got.parent_id == pid), 'fields', 'parent differs')
    want = {}
    for k, v in items:
        want[k] = v
    same_baggage(E, got.baggage, list(want.items()), 'fields')


def bom(E):
    """a byte order mark is a character like any other"""
    import struct
    t = make_tracer()
    mark, ch = b'\xef\xbb\xbf', E.bytes('byte', 1)
    k, v = [(ch, b'v'), (mark + ch, b'v'), (b'k', mark + ch), (b'k', ch + mark), (mark, mark)][E.choose('form', 5)]
    got = None
    carrier = E.bytearray(struct.pack('>QQQQBI', 0, 7, 5, 0, 1, 1) + struct.pack('>I', len(k)) + k + struct.pack('>I', len(v)) + v)
    try:
        got = t.extract(Format.BINARY, carrier)
    except SpanContextCorruptedException:
        pass
    ref = reference(E, carrier)
    if ref is None:
        E.check(got is None, 'refused', 'undecodable buffer accepted')
    elif got is None:
        E.fail('accepted', 'well-formed buffer refused')
    else:
        same_baggage(E, got.baggage, [tuple(ref[4][0])], 'fields')


def large(E, items, size):
    """a long well-formed buffer, one byte of it arbitrary (in a length field, a key or a value), possibly cut"""
    import struct
    t = make_tracer()
    buf = b''
    cut = E.choose('cut', 2)
    where = E.choose('where', 4)
    at = items // 2
    for i in range(items):
        k, v = b'k%d' % i, b'v' * (size if i == at else 1)
        for j, s in enumerate((k, v)):
            ln = struct.pack('>I', len(s))
            if i == at and where == j:
                ln = struct.pack('>I', max(0, len(s) - 6) + E.choose('len', 17))
            if i == at and where == 2 + j:
                s = s[:-1] + E.bytes('byte', 1)
            buf = buf + ln + s
    carrier = E.bytearray(struct.pack('>QQQQBI', 0, 7, 5, 0, 1, items) + (buf[:-1] if cut else buf))
    try:
        got, err = t.extract(Format.BINARY, carrier), False
    except SpanContextCorruptedException:
        got, err = None, True
    ref = reference(E, carrier)
    if ref is None:
        E.check(err, 'refused', 'incomplete or undecodable buffer accepted')
        return
    if err or got is None:
        E.fail('accepted', 'well-formed buffer refused')
        return
    want = {}
    for k, v in ref[4]:
        want[k] = v
    same_baggage(E, got.baggage, list(want.items()), 'fields')


def scenarios(tier):
    deep = tier == 'thorough'
    out = [('len%d' % n, arbitrary, dict(n=n)) for n in (0, 1, 36, 37, 38, 40)]
    out += [('tail%d' % n, arbitrary, dict(n=n, head=0xFFFFFFFF)) for n in range(0, 13 if deep else 11)]
    out += [('items%d' % n, arbitrary, dict(n=n, head=2)) for n in ((12, 14, 16) if deep else (12,))]
    out += [('bom', bom, {})]
    out += [('many', large, dict(items=300, size=3)), ('huge', large, dict(items=2, size=1 << 14))]
    return out
