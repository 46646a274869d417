"""C03 debug-id header, prefixed and manual baggage headers, with or without a trace header."""
from harness.common import *

BOUNDS = ('every subset of {trace header, debug-id header, 0..2 prefixed baggage headers, manual baggage header with 0..2 items, unrelated header}, '
          'in every rotation and reversal of their order, each name as configured, upper or title case; debug id of 1..2 and baggage values of 0..1 arbitrary Unicode characters, '
          'keys of 1..2 token characters; default and custom header names; text map and HTTP; repeated keys: 2..3 (thorough 4) manual and 0..1 (2) prefixed items '
          'over a three-letter key alphabet; 3 (4) manual items with any of four separators between each two; 28 header names that only resemble a known one; one carrier of 600 items with a value of 16384 characters')
ASSUMPTIONS = ['a baggage key given twice (also via the two mechanisms) may keep any of its values: the result is then order dependent by nature',
               'manual baggage keys and values contain no comma, equals sign or surrounding white space']
REACH = ['none', 'debug-id', 'baggage', 'no-trace', 'trace', 'order']

CONFIGS = [
    {},
    {'trace_id_header': 'My_Trace-ID', 'baggage_header_prefix': 'X_Bag-', 'debug_id_header': 'My-Debug'},
]
SAFE = [(0x2d, 0x2e), (0x30, 0x39), (0x41, 0x5a), (0x61, 0x7a)]
MANUAL = [(0x21, 0x2b), (0x2d, 0x3c), (0x3e, 0x7e), (0x400, 0x40f)]


def cased(how, s):
    return s if how == 0 else (s.upper() if how == 1 else s.title())


def order(E, items, full):
    n = len(items)
    if n < 2:
        return items
    if not full:
        if E.choose('reverse', 2):
            items.reverse()
        return items
    k = E.choose('rotate', n)
    items = items[k:] + items[:k]
    if n > 2 and E.choose('reverse', 2):
        items.reverse()
    return items


def quote(fmt, s):
    if fmt == Format.HTTP_HEADERS:
        import urllib.parse
        return urllib.parse.quote(s)
    return s


def combos(E, fmt, cfg, npre, nman, ulen, full):
    t = make_tracer(**CONFIGS[cfg])
    c = CONFIGS[cfg]
    norm = lambda x: x.lower().replace('_', '-')    # noqa: E731
    trace_h = norm(c.get('trace_id_header', 'uber-trace-id'))
    pre = norm(c.get('baggage_header_prefix', 'uberctx-'))
    debug_h = norm(c.get('debug_id_header', 'jaeger-debug-id'))
    case = E.choose('case', 3 if full else 2)
    any1 = None if full or fmt == Format.TEXT_MAP else ASCII
    man = MANUAL if full or fmt == Format.TEXT_MAP or (nman == 1 and cfg == 0 and npre == 0) else SAFE
    headers, want = [], []
    has_trace = E.choose('has_trace', 2)
    tid = sid = None
    if has_trace:
        tid, sid = E.int('trace_id', 1, U128), E.int('span_id', 1, U64)
        headers.append((cased(case, trace_h), '{:x}:{:x}:0:1'.format(tid, sid)))
    debug = None
    if E.choose('has_debug', 2):
        debug = E.str('debug', (1, 2) if ulen > 1 else 1, chars=any1)
        headers.append((cased(case, debug_h), quote(fmt, debug)))
    for i in range(npre):
        k = E.str('pk%d' % i, ulen, chars=TOKEN)
        v = E.str('pv%d' % i, (0, 1), chars=any1)
        for kk, _ in want:
            E.assume(kk != k.lower())
        want.append((k.lower(), v))
        headers.append((cased(case, pre) + k, quote(fmt, v)))
    if nman:
        parts = []
        for i in range(nman):
            k = E.str('mk%d' % i, 1, chars=man)
            v = E.str('mv%d' % i, (0, 1), chars=man)
            for kk, _ in want:
                E.assume(kk != k)
            want.append((k, v))
            parts.append(k + '=' + v)
        if (full or npre == 0) and E.choose('junk', 2):
            parts.insert(0, 'junk')
        sep = E.pick('sep', [',', ', ', ' ,  ']) if full else ', '
        headers.append((cased(case, 'jaeger-baggage'), quote(fmt, sep.join(parts))))
    if E.choose('unrelated', 2):
        headers.append(('x-other', 'a:b=c'))
    carrier = {}
    for k, v in order(E, headers, full):
        carrier[k] = v
    got = t.extract(fmt, carrier)
    if not has_trace and debug is None and not want:
        E.check(got is None, 'none', 'a context out of nowhere')
        return
    if got is None:
        E.fail('lost', 'debug id, baggage or trace ignored')
        return
    if has_trace:
        E.check(E.And(got.trace_id == tid, got.span_id == sid, got.flags == 1), 'trace', 'trace ids differ')
        E.check(got.has_trace, 'trace', 'trace ids lost')
    else:
        E.check(E.Not(got.has_trace), 'no-trace', 'a trace out of nowhere')
    if debug is None:
        E.check(got.debug_id is None, 'debug-id', 'debug id out of nowhere')
    else:
        if got.debug_id is None:
            E.fail('debug-id', 'debug id lost')
        else:
            E.check(got.debug_id == debug, 'debug-id', 'debug id differs')
    same_baggage(E, got.baggage, want)
    E.reach('order')


def repeated(E, nman, npre):
    """a key given twice keeps one of its values and costs no other item"""
    t = make_tracer()
    given, headers = [], []
    abc = [(0x61, 0x63)]
    for i in range(npre):
        k, v = E.str('pk%d' % i, 1, chars=abc), 'p%d' % i
        for kk, _ in given:
            E.assume(kk != k)
        given.append((k, v))
        headers.append(('uberctx-' + k, v))
    parts = []
    for i in range(nman):
        k, v = E.str('mk%d' % i, 1, chars=abc), 'm%d' % i
        given.append((k, v))
        parts.append(k + '=' + v)
    headers.append(('jaeger-baggage', ','.join(parts)))
    if E.choose('has_trace', 2):
        headers.append(('uber-trace-id', '7:5:0:1'))
    headers = order(E, headers, True)
    got = t.extract(Format.TEXT_MAP, dict(headers))
    if got is None:
        E.fail('lost', 'baggage ignored')
        return
    for k, _ in given:
        if k not in got.baggage:
            E.fail('baggage', 'baggage item lost')
            return
        v = got.baggage[k]
        E.check(E.Or(*[E.And(kk == k, vv == v) for kk, vv in given]), 'baggage', 'a value that was not given for the key')
    for k in got.baggage:
        E.check(E.Or(*[kk == k for kk, _ in given]), 'baggage', 'an item out of nowhere')


def separators(E, n):
    """the items of the manual header may be separated with or without spaces, each as it likes"""
    t = make_tracer()
    h, want = '', []
    for i in range(n):
        k, v = 'k%d' % i, E.str('v%d' % i, (0, 1), chars=AZ)
        want.append((k, v))
        h = h + (E.pick('sep%d' % i, [',', ', ', ' ,', ',  ']) if i else '') + k + '=' + v
    got = t.extract(Format.TEXT_MAP, {'jaeger-baggage': h})
    if got is None:
        E.fail('lost', 'baggage ignored')
        return
    E.check(E.Not(got.has_trace), 'no-trace', 'a trace out of nowhere')
    same_baggage(E, got.baggage, want)


def large(E, fmt):
    """many items and headers, one value long: nothing is capped, cut or dropped"""
    t = make_tracer()
    n = 300
    want, headers, parts = [], [('x-h%d' % i, 'v') for i in range(50)], []
    for i in range(n):
        v = 'v%d' % i
        if i in (1, n - 1):
            v = E.str('val%d' % i, 1, chars=AZ)
        if i == n // 2:
            v = E.str('head', 1, chars=AZ) + 'abcd' * (1 << 12) + E.str('tail', 1, chars=AZ)
        want.append(('m%d' % i, v))
        parts.append('m%d=' % i + v)
        w = 'w%d' % i if i != 5 else E.str('pre', 1, chars=AZ)
        want.append(('p%d' % i, w))
        headers.append(('uberctx-p%d' % i, w))
    headers.append(('jaeger-baggage', quote(fmt, ','.join(parts))))
    debug = 'abcd' * 1000 + E.str('debug', 1, chars=AZ)
    headers.append(('jaeger-debug-id', debug))
    got = t.extract(fmt, dict(headers))
    if got is None:
        E.fail('lost', 'debug id and baggage ignored')
        return
    E.check(got.debug_id == debug, 'debug-id', 'debug id differs')
    E.check(E.Not(got.has_trace), 'no-trace', 'a trace out of nowhere')
    same_baggage(E, got.baggage, want)


def neighbours(E, fmt, cfg):
    """a header whose name only resembles a known one says nothing"""
    c = CONFIGS[cfg]
    t = make_tracer(**c)
    names = [x.lower().replace('_', '-') for x in (c.get('trace_id_header', 'uber-trace-id'), c.get('debug_id_header', 'jaeger-debug-id'))] + ['jaeger-baggage']
    pre = c.get('baggage_header_prefix', 'uberctx-').lower().replace('_', '-')
    near = []
    for x in names:
        near += [x + '-x', x + 's', x[:-1], 'x-' + x, x[1:], x + ' ', x.replace('-', '')]
    near += [pre[:-1], pre[1:] + 'k', 'x-' + pre + 'k', pre[:-1] + 'k']
    if cfg:
        near += ['uber-trace-id', 'jaeger-debug-id', 'uberctx-k']
    name = E.pick('near', near)
    v = E.pick('value', ['7:5:0:1', 'q=r', E.str('any', 1, chars=ASCII)])
    headers = [(name, quote(fmt, v))]
    tid = E.int('trace_id', 1, U128)
    has_trace, has_debug, has_bag = E.choose('has_trace', 2), E.choose('has_debug', 2), E.choose('has_baggage', 2)
    if has_trace:
        headers.append((names[0], '{:x}:5:0:1'.format(tid)))
    if has_debug:
        headers.append((names[1], 'dbg'))
    if has_bag:
        headers += [(pre + 'k', 'v'), (names[2], 'm=n')]
    if E.choose('reverse', 2):
        headers.reverse()
    got = t.extract(fmt, dict(headers))
    if not (has_trace or has_debug or has_bag):
        E.check(got is None, 'none', 'a context out of nowhere')
        return
    if got is None:
        E.fail('lost', 'debug id, baggage or trace ignored')
        return
    if has_trace:
        E.check(E.And(got.trace_id == tid, got.span_id == 5, got.flags == 1), 'trace', 'trace ids differ')
    else:
        E.check(E.Not(got.has_trace), 'no-trace', 'a trace out of nowhere')
    if has_debug:
        E.check(got.debug_id is not None and got.debug_id == 'dbg', 'debug-id', 'debug id differs')
    else:
        E.check(got.debug_id is None, 'debug-id', 'debug id out of nowhere')
    same_baggage(E, got.baggage, [('k', 'v'), ('m', 'n')] if has_bag else [])


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for fmt, n in ((Format.TEXT_MAP, 'text'), (Format.HTTP_HEADERS, 'http')):
        for cfg in range(2):
            out.append(('%s-neighbours%d' % (n, cfg), neighbours, dict(fmt=fmt, cfg=cfg)))
            for npre in range(3):
                for nman in range(3):
                    if not deep and (npre + nman > 3 or (n == 'http' and npre + nman > 2) or (cfg and npre + nman > 1)):
                        continue
                    full = deep or (npre + nman <= 1 and n == 'text')
                    out.append(('%s-cfg%d-p%d-m%d' % (n, cfg, npre, nman), combos,
                                dict(fmt=fmt, cfg=cfg, npre=npre, nman=nman, ulen=1 if npre + nman > 1 and not deep else 2, full=full)))
        out.append(('%s-large' % n, large, dict(fmt=fmt)))
        out.append(('%s-uni' % n, combos, dict(fmt=fmt, cfg=0, npre=1, nman=0, ulen=1, full=False)))
    out.append(('separators3', separators, dict(n=3)))
    if deep:
        out.append(('separators4', separators, dict(n=4)))
    for nman, npre in ((2, 0), (2, 1), (3, 0), (3, 1)) + (((3, 2), (4, 0), (4, 1)) if deep else ()):
        out.append(('repeated%d-%d' % (nman, npre), repeated, dict(nman=nman, npre=npre)))
    return out
