"""C02 the trace header is read as exactly four hexadecimal numbers, or refused as corrupted."""
from harness.common import *

BOUNDS = ('all header texts of up to 7 (thorough 9) arbitrary Unicode characters, one valid header with arbitrary characters at up to two (HTTP, quick: one) of three places before, after and within, and texts of up to 12 characters over the alphabet '
          '{0-9 a-f A-F : - + _ x space}; all 4-tuples of numbers (trace id < 2^128, other ids and flags < 2^64) in every letter case and '
          'with up to 3 leading zeros, and up to 130 leading zeros or digits in one or all fields (one arbitrary digit); non-text values (numbers, bytes, lists, tuples, dictionaries, also inside a list); 1..6 fields of which any are empty; lists of 0..2 values (HTTP: percent-encoded or not); text map and HTTP')
ASSUMPTIONS = ['a field counts as a number when int(field, 16) reads it; only plain hexadecimal digits must be accepted (a sign, an underscore, a 0x prefix or white space may be refused)',
               'HTTP header text is percent-decoded before parsing; short header texts with %-escapes are part of the Unicode scenario']
REACH = ['accepted', 'rejected', 'value', 'list', 'other-exception']


def verdict(E, t, fmt, header):
    try:
        return t.extract(fmt, {'uber-trace-id': header}), None
    except SpanContextCorruptedException:
        return None, 'corrupted'
    # any other exception is a violation reported by the engine (uncaught)


def numbers(E, fmt):
    """every well-formed header is accepted with exactly its values"""
    t = make_tracer()
    tid = E.int('trace_id', 0, U128)
    sid = E.int('span_id', 0, U64)
    pid = E.int('parent_id', 0, U64)
    fl = E.int('flags', 0, U64)
    style = E.choose('style', 3)
    f = ['{:x}', '{:X}', '{:03x}'][style]
    header = ':'.join([f.format(x) for x in (tid, sid, pid, fl)])
    ctx, err = verdict(E, t, fmt, header)
    zero = E.Or(tid == 0, sid == 0)
    if err:
        E.check(zero, 'accepted', 'well-formed header refused')
        E.reach('rejected')
    else:
        E.check(E.Not(zero), 'rejected', 'zero id accepted')
        if ctx is None:
            E.fail('accepted', 'well-formed header ignored')
            return
        E.check(E.And(ctx.trace_id == tid, ctx.span_id == sid, ctx.flags == fl), 'value', 'numbers differ')
        E.check((pid == 0) if ctx.parent_id is None else (ctx.parent_id == pid), 'value', 'parent differs')
        E.check(len(ctx.baggage) == 0, 'value', 'baggage out of nowhere')


def negative(E, fmt):
    """a field with a minus sign is refused unless it is -0 in a place where zero is fine"""
    t = make_tracer()
    vals = [E.int('n%d' % i, 1, U64) for i in range(4)]
    which = 1 + E.choose('which', 15)       # every combination of signs
    header = ':'.join([('-' if which >> i & 1 else '') + '{:x}'.format(v) for i, v in enumerate(vals)])
    ctx, err = verdict(E, t, fmt, header)
    E.check(err is not None, 'rejected', 'negative field accepted')


def fields(E, fmt):
    """a wrong number of fields is refused"""
    t = make_tracer()
    n = 1 + E.choose('n', 6)
    fs = ['{:x}'.format(E.int('f%d' % i, 1, U64)) for i in range(n)]
    empty = E.choose('empty', 1 << n)
    if n == 4 and not empty:
        return
    header = ':'.join(['' if empty >> i & 1 else f for i, f in enumerate(fs)])
    ctx, err = verdict(E, t, fmt, header)
    E.check(err is not None, 'rejected', 'wrong number of fields accepted')


def ref_field(E, f):
    """the reference reading of one field"""
    try:
        return int(f, 16)
    except ValueError:
        return None


def hexdigit(E, c):
    o = ord(c)
    return E.Or(E.And(o >= 0x30, o <= 0x39), E.And(o >= 0x41, o <= 0x46), E.And(o >= 0x61, o <= 0x66))


def text(E, fmt, n, chars):
    """arbitrary text: accepted only when it has four numeric fields in range, and always when they are plain hex digits"""
    t = make_tracer()
    judge(E, t, fmt, E.str('header', n, chars=chars))


def around(E, fmt, n):
    """a well-formed header with something before, after and within"""
    t = make_tracer()
    k = E.choose('where', 3)
    tid = E.int('trace_id', 1, U64)
    x = ['', '', '']
    for i in (k, k + 1)[:n]:
        x[i % 3] = E.str('x%d' % i, 1)
    judge(E, t, fmt, x[0] + '{:x}'.format(tid) + ':2' + x[1] + ':3:1' + x[2])


def padded(E, fmt):
    """long numbers: any number of leading zeros is fine, a number beyond the range of an id is refused or taken whole"""
    t = make_tracer()
    which = E.choose('which', 5)
    wide = E.choose('wide', 2)
    n = E.pick("n", [5, 14, 31, 130])
    fs = ['5', '6', '7', '1']
    v = [5, 6, 7, 1]
    for i in range(4):
        if which in (i, 4):
            d = E.str('digit%d' % i, 1, chars=HEX[:3] if which < 4 else HEX[:1])
            fs[i] = (('a' if wide else '0') + '0' * (n - 1)) + d + 'c'
            v[i] = int(d, 16) * 16 + 12 + (10 << (4 * (n + 1)) if wide else 0)
    ctx, err = verdict(E, t, fmt, ':'.join(fs))
    if err and wide:
        E.reach('rejected')
        return
    if err or ctx is None:
        E.fail('accepted', 'well-formed header refused')
        return
    same_ids(E, ctx, v[0], v[1], v[2], v[3])


def judge(E, t, fmt, h):
    ctx, err = verdict(E, t, fmt, h)
    if fmt == Format.HTTP_HEADERS:
        import urllib.parse
        h = urllib.parse.unquote(h)
    parts = h.split(':')
    good = False
    plain = False
    if len(parts) == 4:
        nums = [ref_field(E, p) for p in parts]
        if all(x is not None for x in nums):
            good = E.And(nums[0] >= 1, nums[1] >= 1, nums[2] >= 0, nums[3] >= 0)
            plain = E.And(good, *[hexdigit(E, c) for p in parts for c in p])
    if err:
        E.check(E.Not(plain), 'accepted', 'well-formed header refused')
        E.reach('rejected')
    elif ctx is None:
        E.fail('ignored', 'a present trace header is neither read nor refused')
    else:
        E.check(good, 'rejected', 'malformed header accepted')
        E.check(E.And(ctx.trace_id == nums[0], ctx.span_id == nums[1], ctx.flags == nums[3]), 'value', 'numbers differ')
        E.check((nums[2] == 0) if ctx.parent_id is None else E.And(ctx.parent_id == nums[2], nums[2] > 0), 'value', 'parent differs')
        E.reach('accepted')


def lists(E, fmt):
    t = make_tracer()
    n = E.choose('n', 3)
    quoted = fmt == Format.HTTP_HEADERS and E.choose('quoted', 2)
    tid = E.int('trace_id', 1, 0xff if quoted else U128)
    hs = [('%3A' if quoted else ':').join(['{:x}'.format(tid), '7' if quoted else '{:x}'.format(E.int('span_id', 1, U64)), '0', '1'])] * n
    ctx, err = verdict(E, t, fmt, hs)
    if n == 1:
        E.check(err is None, 'list', 'one-element list refused')
        if not err:
            E.check(ctx.trace_id == tid, 'list', 'numbers differ')
    else:
        E.check(err is not None, 'list', 'list accepted')


def other(E, fmt):
    """values that are no text"""
    t = make_tracer()
    k = E.choose('kind', 17)
    v = [None, E.int('i', -5, U64), 1.5, True, [], [None], [E.int('j', 0, 9)], {'a': 1}, (), ('1:2:3:4',), ('1:2:0:1', 'x'), [()], [(1, 2)],
         [['1:2:0:1', '1']], b'1:2:0:1', bytearray(b'\xff'), object][k]
    ctx, err = verdict(E, t, fmt, v)
    E.check(err is not None, 'other-exception', 'non-text header accepted')


HEX = [(0x30, 0x39), (0x41, 0x46), (0x61, 0x66), (0x3a, 0x3a)]
ODD = [(0x2b, 0x2b), (0x2d, 0x2d), (0x5f, 0x5f), (0x78, 0x78), (0x20, 0x20), (0x30, 0x31), (0x3a, 0x3a)]


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for fmt, n in ((Format.TEXT_MAP, 'text'), (Format.HTTP_HEADERS, 'http')):
        for fn in (numbers, negative, fields, lists, other, padded):
            out.append(('%s-%s' % (n, fn.__name__), fn, dict(fmt=fmt)))
        out.append(('%s-around' % n, around, dict(fmt=fmt, n=1 if n == 'http' and not deep else 2)))
    for k in range(0, 9 if deep else 8):
        out.append(('text-hex%d' % k, text, dict(fmt=Format.TEXT_MAP, n=k, chars=HEX)))
        if k <= (8 if deep else 7):
            out.append(('text-odd%d' % k, text, dict(fmt=Format.TEXT_MAP, n=k, chars=ODD)))
            out.append(('text-any%d' % k, text, dict(fmt=Format.TEXT_MAP, n=k, chars=None)))
        if k <= (5 if deep else 4):
            out.append(('http-any%d' % k, text, dict(fmt=Format.HTTP_HEADERS, n=k, chars=None)))
    return out
