"""Models of builtin / C functions applied to symbolic values, and the call dispatcher used by the
instrumented code.  A call with no symbolic argument runs the real function."""
import builtins
import collections
import functools
import io
import json
import math
import random as _random_mod
import re
import string as _string
import struct
import types
import threading
import time
import urllib.parse

import z3
from . import core, sched
from .core import Unsupported
from . import resym, values
from .values import *          # noqa
from .values import (Sym, SymInt, SymBool, SymFP, SymReal, SymStr, SymBytes, SymByteArray, XDict, NumAtom,
                     mk_str, mk_bytes, mk_int, mk_bool, mk_fp, items_of, chars_of, bitems_of, pytype, C, CW,
                     sym_and, sym_or, sym_not, truth, ch_eq, ch_in, ch_set, dec, digit_char, byte_int,
                     concretize_index, repeat_count, LazyStr, text_items, mk_text, as_int, iv, _WS, fp_trunc, utf8_decode, utf8_encode, sym_join,
                     int_bytes, ch8_in, _symkey, _is_strlike)

MODELS = {}         # function object -> model
METHODS = {}        # (type, name) -> model for concrete receivers


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[f] = m
        return m
    return deco


def any_sym(a, k=None):
    for x in a:
        if isinstance(x, Sym):
            return True
    if k:
        for x in k.values():
            if isinstance(x, Sym):
                return True
    return False


def deep_sym(x, d=3):
    if isinstance(x, Sym):
        return True
    if d and isinstance(x, (list, tuple)):
        return any(deep_sym(y, d - 1) for y in x)
    if d and isinstance(x, dict):
        return any(deep_sym(y, d - 1) for y in x.values()) or (isinstance(x, XDict) and x._al is not None)
    return False


# ------------------------------------------------------------------------------ int parsing
_ND = None


def nd_ranges():
    """Ranges [a, a+9] of Unicode decimal digits (value = c - a)."""
    global _ND
    if _ND is None:
        import unicodedata
        _ND = []
        c = 0
        while c < 0x110000:
            if unicodedata.decimal(chr(c), None) == 0:
                _ND.append(c)
                c += 10
            else:
                c += 1
    return _ND


def _digit_value(c, base, w):
    """(is_digit Bool, value BV[w]) of a character in int(str, base)"""
    if isinstance(c, int):
        try:
            v = int(chr(c), 36)
        except ValueError:
            return core.FALSE, z3.BitVecVal(0, w)
        if chr(c) == '_':
            return core.FALSE, z3.BitVecVal(0, w)
        return (core.TRUE if v < base else core.FALSE), z3.BitVecVal(v if v < base else 0, w)

    def ext(e):
        if e.size() > w:
            return z3.Extract(w - 1, 0, e)
        return z3.ZeroExt(w - e.size(), e)
    conds, val = [], z3.BitVecVal(0, w)
    if base > 10:
        up, lo = ch_in(c, 65, 65 + base - 11), ch_in(c, 97, 97 + base - 11)
        conds += [up, lo]
        val = z3.If(up, ext(c - 55), z3.If(lo, ext(c - 87), val))
    ctx = C()
    ascii_only = ctx.possible(z3.UGT(c, z3.BitVecVal(127, CW))) is False
    for a in ([48] if ascii_only else nd_ranges()):
        hi = a + min(base, 10) - 1
        r = ch_in(c, a, hi)
        conds.append(r)
        val = z3.If(r, ext(c - a), val)
    return z3.Or(*conds), val


def parse_int(s, base):
    """int(s, base) for base 10 or 16 and symbolic characters: one DFA run with symbolic states, so a
    single fork (valid / ValueError) per call."""
    its = s.items if isinstance(s, SymStr) else items_of(s)
    if len(its) == 1 and isinstance(its[0], NumAtom) and its[0].base <= base:
        if its[0].base == base:
            return its[0].v
    if len(its) == 2 and isinstance(its[1], NumAtom) and its[1].base == base and isinstance(its[0], int) and chr(its[0]) in '+-':
        return -its[1].v if its[0] == 45 else its[1].v
    cs = chars_of(s)
    n = len(cs)
    bits = {16: 4, 10: 4, 2: 1, 8: 3}.get(base)
    if bits is None:
        raise Unsupported('int base %r' % base)
    w = max(bits * n + 1, 8)
    S = ['ws', 'sign', 'zero', 'pfx', 'pfxus', 'dig', 'us', 'trail']
    st = {k: core.FALSE for k in S}
    st['ws'] = core.TRUE
    val = z3.BitVecVal(0, w)
    neg = core.FALSE
    first = True
    Or, And = z3.Or, z3.And
    for c in cs:
        isd, dv = _digit_value(c, base, w)
        ws = ch_set(c, _WS)
        # zeros may be any Unicode zero for digits, but the prefix needs the transliterated '0'
        is0 = And(isd, dv == 0)
        isx = Or(ch_eq(c, 120), ch_eq(c, 88)) if base == 16 else core.FALSE
        isus = ch_eq(c, 95)
        sgn = Or(ch_eq(c, 43), ch_eq(c, 45))
        start = Or(st['ws'], st['sign'])
        nst = {}
        nst['ws'] = And(st['ws'], ws)
        nst['sign'] = And(st['ws'], sgn)
        neg = Or(neg, And(st['ws'], ch_eq(c, 45)))
        nst['zero'] = And(start, is0) if base == 16 else core.FALSE
        nst['pfx'] = And(st['zero'], isx)
        nst['pfxus'] = And(st['pfx'], isus)
        indig = Or(st['zero'], st['pfx'], st['pfxus'], st['dig'], st['us'])
        startd = And(start, isd, z3.Not(is0)) if base == 16 else And(start, isd)
        nst['dig'] = Or(startd, And(indig, isd))
        nst['us'] = And(Or(st['zero'], st['dig']), isus)
        nst['trail'] = And(Or(st['zero'], st['dig'], st['trail']), ws)
        val = z3.If(Or(startd, And(indig, isd)), val * z3.BitVecVal(base, w) + dv, val)
        st = {k: z3.simplify(v) for k, v in nst.items()}
        neg = z3.simplify(neg)
        val = z3.simplify(val)
    ok = z3.simplify(Or(st['zero'], st['dig'], st['trail']))
    if not dec(ok):
        raise ValueError(mk_text(items_of('invalid literal for int() with base %d: ' % base) +
                                 text_items(values.sym_repr(s if isinstance(s, SymStr) else SymStr(items_of(s))))))
    hi = base ** n - 1
    v = mk_int(z3.ZeroExt(1, val), 0, min(hi, (1 << w) - 1))
    if z3.is_false(neg):
        return v
    if dec(neg):
        return -v
    return v


@model(int)
def m_int(x=0, base=None):
    if base is None:
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return b2i(x)
        if isinstance(x, SymFP):
            return fp_trunc(x)
        if isinstance(x, SymStr):
            return parse_int(x, 10)
        if isinstance(x, SymBytes):
            return parse_int(x.decode('latin-1'), 10)
        if isinstance(x, SymReal):
            return x.trunc()
        return int(x)
    if isinstance(x, SymStr):
        if isinstance(base, SymInt):
            base = concretize_index(base)
        return parse_int(x, base)
    if isinstance(x, (SymInt, SymBool, SymFP)):
        raise TypeError("int() can't convert non-string with explicit base")
    if isinstance(x, SymBytes):
        return parse_int(x.decode('latin-1'), base)
    return int(x, base)


@model(float)
def m_float(x=0.0):
    if isinstance(x, (SymFP, SymReal)):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return mk_fp(as_fp(x))
    if isinstance(x, SymStr):
        return float(x.concrete())
    return float(x)


@model(bool)
def m_bool(x=False):
    return truth(x)


def str_of(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return dec_str(x)
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, (SymFP, SymReal)):
        return LazyStr(lambda: str(float(x)))
    if isinstance(x, SymBytes):
        return values.sym_repr(x)
    if isinstance(x, (list, tuple, dict)) and deep_sym(x):
        return container_repr(x)
    if isinstance(x, BaseException) and any_sym(x.args):
        if len(x.args) == 1:
            return str_of(x.args[0])
        return '<exception>'
    f = own_text(x)
    if f is not None:
        return f(x)
    return str(x)


def own_text(x, which=('__str__', '__repr__')):
    """the text method of an object of the code under test, which may give a symbolic text"""
    c = type(x)
    if isinstance(x, (Sym, BaseException, type)) or c.__module__ == 'builtins':
        return None
    for name in which:
        f = getattr(c, name, None)
        if isinstance(f, types.FunctionType):
            return f
        if f is not getattr(object, name):
            return None
    return None


def container_repr(x):
    """repr() of a container with symbolic values, rendered when something looks at it"""
    if isinstance(x, dict):
        its = [(k, v) for k, v in x.items()]
    else:
        its = list(x)

    def render(x=x, its=its):
        r = lambda v: chars_of(m_repr(v))
        if isinstance(x, dict):
            parts = [r(k) + [58, 32] + r(v) for k, v in its]
            op, cl = '{', '}'
        else:
            parts = [r(v) for v in its]
            op, cl = '[]' if isinstance(x, list) else '()'
        out = [ord(op)]
        for i, p in enumerate(parts):
            out.extend(([44, 32] if i else []) + list(p))
        if isinstance(x, tuple) and len(parts) == 1:
            out.append(44)
        return mk_str(out + [ord(cl)])
    return LazyStr(render)


def dec_str(x):
    if not isinstance(x, SymInt):
        return str(x)
    if x.lo < 0:
        if x < 0:
            n = -x
            return mk_str([45] + items_of(mk_num(n, 10)))
        x = _nonneg(x)
    return mk_num(x, 10)


def _nonneg(x):
    """x known >= 0 on this path: shrink its interval"""
    if not isinstance(x, SymInt) or x.lo >= 0:
        return x
    return SymInt(*values_narrow(x, 0, x.hi))


from .values import _narrow as values_narrow     # noqa


def mk_num(x, base, pad=1, upper=False):
    x = _nonneg(x)
    if not isinstance(x, SymInt):
        s = format(x, 'x' if base == 16 else 'd')
        return (s.upper() if upper else s).zfill(pad)
    return mk_str([NumAtom(x, base, pad, upper)])


@model(str)
def m_str(x='', *a, **k):
    if isinstance(x, SymBytes) and (a or k):
        return x.decode(*a, **k)
    if a or k:
        return str(x, *a, **k)
    return str_of(x)


@model(repr, ascii)
def m_repr(x):
    if isinstance(x, Sym):
        if isinstance(x, (SymInt, SymBool, SymFP, SymReal)):
            return str_of(x)
        if isinstance(x, (SymStr, SymBytes)):
            return values.sym_repr(x)
        return LazyStr(lambda: repr(x.concrete()))
    if isinstance(x, (list, tuple, dict)) and deep_sym(x):
        return container_repr(x)
    if isinstance(x, BaseException) and any_sym(x.args) and type(x).__repr__ is BaseException.__repr__:
        body = container_repr(x.args)
        return LazyStr(lambda: mk_str(items_of(type(x).__name__) + (
            [40] + body.items[1:-2] + [41] if len(x.args) == 1 else body.items)))
    return repr(x)


@model(bytes)
def m_bytes(x=b'', *a, **k):
    if isinstance(x, SymStr):
        return x.encode(*a, **k)
    if isinstance(x, SymBytes):
        return mk_bytes(list(x.items))
    if isinstance(x, SymInt):
        return bytes(repeat_count(x))
    if isinstance(x, (list, tuple)) and deep_sym(x):
        return mk_bytes([z3.Extract(7, 0, v.e) if isinstance(v, SymInt) else v for v in x])
    return bytes(x, *a, **k)


@model(bytearray)
def m_bytearray(x=b'', *a, **k):
    if isinstance(x, SymStr):
        return SymByteArray(bitems_of(x.encode(*a, **k)))
    if isinstance(x, SymBytes):
        return SymByteArray(list(x.items))
    if isinstance(x, (list, tuple)) and deep_sym(x):
        return SymByteArray(bitems_of(m_bytes(x)))
    return SymByteArray(list(bytearray(x, *a, **k)))
m_bytearray.always = True


@model(memoryview)
def m_memoryview(x):
    if isinstance(x, SymBytes):
        return x
    return memoryview(x)


@model(len)
def m_len(x):
    return x.__len__() if isinstance(x, Sym) else len(x)


@model(isinstance)
def m_isinstance(x, cls):
    if isinstance(x, Sym):
        p = x.pytype
        if isinstance(cls, tuple):
            return any(m_isinstance(x, c) for c in cls)
        return issubclass(p, cls)
    return isinstance(x, cls)


@model(type)
def m_type(*a):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a)
m_type.always = True


@model(callable)
def m_callable(x):
    return False if isinstance(x, Sym) else callable(x)


@model(hasattr)
def m_hasattr(x, n):
    if isinstance(x, Sym):
        return hasattr(x.pytype, n)
    return hasattr(x, n)


@model(getattr)
def m_getattr(x, n, *d):
    if isinstance(n, SymStr):
        n = n.concrete()
    return getattr(x, n, *d)


@model(format)
def m_format(x, spec=''):
    return format_value(x, spec)


@model(ord)
def m_ord(x):
    if isinstance(x, SymStr):
        cs = x.chars()
        if len(cs) != 1:
            raise TypeError('ord() expected a character')
        return cs[0] if isinstance(cs[0], int) else SymInt(z3.ZeroExt(1, cs[0]), 0, 0x1FFFFF)
    if isinstance(x, SymBytes):
        return x[0]
    return ord(x)


@model(chr)
def m_chr(x):
    if isinstance(x, SymInt):
        if sym_or(x < 0, x > 0x10FFFF):
            raise ValueError('chr() arg not in range(0x110000)')
        e = x.e
        e = z3.Extract(CW - 1, 0, e) if e.size() >= CW else z3.ZeroExt(CW - e.size(), e)
        return mk_str([e])
    return chr(x)


@model(hex)
def m_hex(x):
    if isinstance(x, SymInt):
        if x < 0:
            return '-0x' + mk_num(-x, 16)
        return '0x' + mk_num(x, 16)
    return hex(x)


@model(abs)
def m_abs(x):
    return abs(x)


@model(round)
def m_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n) if n is not None else x.__round__()
    return round(x, n) if n is not None else round(x)


@model(divmod)
def m_divmod(a, b):
    return (a // b, a % b)


@model(pow)
def m_pow(a, b, m=None):
    return a.__pow__(b, m) if isinstance(a, SymInt) else pow(a, concretize_index(b), m)


def _minmax(lt):
    def f(*a, **k):
        key = k.get('key')
        if len(a) == 1:
            seq = list(a[0])
            if not seq:
                if 'default' in k:
                    return k['default']
                raise ValueError('empty')
        else:
            seq = list(a)
        kf = (lambda v: call(key, v)) if key else (lambda v: v)
        best = seq[0]
        bk = kf(best)
        for x in seq[1:]:
            xk = kf(x)
            if (xk < bk) if lt else (xk > bk):
                best, bk = x, xk
        return best
    return f


MODELS[min] = _minmax(True)
MODELS[max] = _minmax(False)
MODELS[min].deep = MODELS[max].deep = True


@model(sum)
def m_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r
m_sum.deep = True


@model(any)
def m_any(xs):
    for x in xs:
        if x:
            return True
    return False


@model(all)
def m_all(xs):
    for x in xs:
        if not x:
            return False
    return True


@model(range)
def m_range(*a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else 1
    step = concretize_index(step) if isinstance(step, SymInt) else step

    def gen():
        i = start
        n = 0
        while (i < stop) if step > 0 else (i > stop):
            yield i
            i = i + step
            n += 1
            if n > RANGE_LIMIT[0]:
                raise LoopBound()
    return _Range(gen)


RANGE_LIMIT = [4096]


class LoopBound(core.Control):
    """A loop over a symbolic count ran past the work bound."""


class _Range(object):
    def __init__(self, g):
        self.g = g

    def __iter__(self):
        return self.g()


@model(map)
def m_map(f, *seqs):
    return iter([call(f, *xs) for xs in zip(*seqs)])
m_map.always = True


@model(filter)
def m_filter(f, seq):
    return iter([x for x in seq if (call(f, x) if f is not None else x)])
m_filter.always = True


@model(sorted)
def m_sorted(xs, key=None, reverse=False):
    xs = list(xs)
    if key is None and not deep_sym(xs):
        return sorted(xs, reverse=reverse)
    kf = (lambda v: call(key, v)) if key else (lambda v: v)
    out = []
    for x in xs:
        kx = kf(x)
        i = len(out)
        while i > 0 and ((kx < out[i - 1][0]) if not reverse else (kx > out[i - 1][0])):
            i -= 1
        out.insert(i, (kx, x))
    return [x for _, x in out]
m_sorted.always = True


@model(dict)
def m_dict(*a, **k):
    return XDict(*a, **k)
m_dict.always = True


@model(set, frozenset)
def m_set(*a):
    if a and deep_sym(list(a[0])):
        raise Unsupported('set of symbolic values')
    return set(*a)
m_set.always = False


class XOrderedDict(XDict):
    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            its = list(self.items())
            self.clear()
            self[k] = v
            for a, b in its:
                self[a] = b


@model(collections.OrderedDict)
def m_odict(*a, **k):
    return XOrderedDict(*a, **k)
m_odict.always = True


class XDefaultDict(XDict):
    def __init__(self, f=None, *a, **k):
        self.default_factory = f
        XDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        self[k] = v = self.default_factory()
        return v

    def __getitem__(self, k):
        if self._al is None and not _symkey(k):
            if dict.__contains__(self, k):
                return dict.__getitem__(self, k)
            return self.__missing__(k)
        return XDict.__getitem__(self, k)


@model(collections.defaultdict)
def m_ddict(*a, **k):
    return XDefaultDict(*a, **k)
m_ddict.always = True


# ------------------------------------------------------------------------------- formatting
_SPEC = re.compile(r'^(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([bcdeEfFgGnosxX%])?$', re.S)


def format_value(x, spec=''):
    if isinstance(spec, SymStr):
        spec = spec.concrete()
    f = own_text(x)
    if f is not None and type(x).__format__ is object.__format__ and not spec:
        return f(x)
    if not isinstance(x, Sym):
        return format(x, spec)
    if spec == '':
        return str_of(x)
    m = _SPEC.match(spec)
    if not m:
        raise Unsupported('format spec ' + spec)
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    width = int(width) if width else 0
    if isinstance(x, SymBool):
        x = b2i(x) if typ else ('True' if x else 'False')
        if not isinstance(x, Sym):
            return format(x, spec)
    if isinstance(x, SymStr):
        if typ not in (None, 's') or prec:
            raise Unsupported('format spec ' + spec)
        return x.ljust(width, fill or ' ') if align in (None, '<') else x.rjust(width, fill or ' ')
    if isinstance(x, SymInt):
        if typ in (None, 'd', 'x', 'X') and not comma and not alt and sign in (None, '-') and prec is None:
            base = 16 if typ in ('x', 'X') else 10
            up = typ == 'X'
            pad0 = zero or (fill == '0' and align in ('>', '='))
            neg = x.lo < 0 and bool(x < 0)
            if neg:
                if width:
                    return format(concretize_index(x), spec)
                return '-' + mk_num(-x, base, 1, up)
            x = _nonneg(x)
            if pad0 and width:
                return mk_num(x, base, width, up)
            s = mk_num(x, base, 1, up)
            if width:
                return s.rjust(width, fill or ' ') if align in (None, '>') else s.ljust(width, fill or ' ')
            return s
    if isinstance(x, (SymFP, SymReal)):
        return LazyStr(lambda: format(float(x), spec))
    return format(concretize_index(x), spec)


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def symbolic_format(fmt, special):
    """A format text with symbolic characters: itself if it has none of the special characters, otherwise one value"""
    if any(dec(ch_eq(ch, ord(sp))) for ch in fmt.chars() for sp in special):
        return fmt.concrete()
    return fmt


def str_mod(fmt, args):
    if isinstance(fmt, SymStr):
        fmt = symbolic_format(fmt, '%')
        if isinstance(fmt, SymStr):
            if args and not (isinstance(args, dict) or (isinstance(args, tuple) and not args)):
                raise TypeError('not all arguments converted during string formatting')
            return fmt
    if isinstance(fmt, (bytes, bytearray)):
        raise Unsupported('bytes %')
    out = []
    pos = 0
    idx = 0
    tup = args if isinstance(args, tuple) else (args,)
    usedmap = False
    for m in _PCT.finditer(fmt):
        out.extend(map(ord, fmt[pos:m.start()]))
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append(37)
            continue
        if key is not None:
            v = args[key]
            usedmap = True
        else:
            if idx >= len(tup):
                raise TypeError('not enough arguments for format string')
            v = tup[idx]
            idx += 1
        if not deep_sym(v) and not (isinstance(v, BaseException) and any_sym(v.args)) and not (conv in 'sr' and own_text(v) is not None):
            spec = '%' + flags + (width or '') + ('.' + prec if prec else '') + conv
            out.extend(map(ord, spec % (v,)))
            continue
        if conv in 'sra' and not width and not prec:
            s = m_repr(v) if conv == 'r' and (isinstance(v, Sym) or own_text(v) is not None) else str_of(v)
            out.extend(text_items(s))
        elif conv in 'diuxX':
            if isinstance(v, (SymFP,)) and conv in 'diu':
                v = fp_trunc(v)
            if isinstance(v, SymReal) and conv in 'diu':
                out.extend(map(ord, '<real>'))
                continue
            if not isinstance(v, (SymInt, SymBool, int)):
                raise TypeError('%%%s format: a number is required' % conv)
            v = as_int(v)
            if '-' in flags or '+' in flags or '#' in flags or prec:
                raise Unsupported('format flags')
            spec = ('0' if '0' in flags else '') + (width or '') + {'i': 'd', 'u': 'd'}.get(conv, conv)
            out.extend(items_of(format_value(v, spec)))
        elif conv in 'fFgGeE':
            if isinstance(v, (SymInt, SymBool, SymFP, SymReal)):
                spec = '%' + flags + (width or '') + ('.' + prec if prec else '') + conv
                out.append(LazyStr(lambda v=v, spec=spec: spec % float(v)))
            else:
                raise TypeError('must be real number')
        elif conv in 'sra':
            s = str_of(v)
            if prec:
                s = s[:int(prec)]
            if width:
                s = s.ljust(int(width)) if '-' in flags else (s.rjust(int(width)))
            out.extend(items_of(s))
        else:
            raise Unsupported('format conversion %' + conv)
    out.extend(map(ord, fmt[pos:]))
    if not usedmap and idx < len(tup) and not isinstance(args, dict):
        raise TypeError('not all arguments converted during string formatting')
    return mk_text(out)


def str_format(fmt, a, k):
    if isinstance(fmt, SymStr):
        fmt = symbolic_format(fmt, '{}')
        if isinstance(fmt, SymStr):
            return fmt
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        out.extend(map(ord, lit))
        if field is None:
            continue
        m = re.match(r'^([^.\[]*)(.*)$', field, re.S)
        name, rest = m.groups()
        if name == '':
            v = a[auto]
            auto += 1
        elif name.isdigit():
            v = a[int(name)]
        else:
            v = k[name]
        while rest:
            mm = re.match(r'^\.(\w+)(.*)$', rest, re.S)
            if mm:
                v = getattr(v, mm.group(1))
                rest = mm.group(2)
                continue
            mm = re.match(r'^\[([^\]]*)\](.*)$', rest, re.S)
            kk = mm.group(1)
            v = v[int(kk) if kk.isdigit() else kk]
            rest = mm.group(2)
        if conv == 's':
            v = str_of(v)
        elif conv == 'r':
            v = m_repr(v)
        if spec and '{' in spec:
            spec = str_format(spec, a[auto:], k)
        if not isinstance(v, Sym) and deep_sym(v):
            v = str_of(v)
        out.extend(text_items(format_value(v, spec or '')))
    return mk_text(out)


def fstr(*parts):
    """parts: str or (value, conv, spec)"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(map(ord, p))
        else:
            v, conv, spec = p
            if conv == 's':
                v = str_of(v)
            elif conv in ('r', 'a'):
                v = m_repr(v)
            if not isinstance(v, Sym) and deep_sym(v):
                v = str_of(v)
            out.extend(text_items(format_value(v, spec)))
    return mk_text(out)


# ----------------------------------------------------------------------------------- struct
_INTF = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
         'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False), 'n': (8, True), 'N': (8, False)}


def _parse_fmt(fmt):
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '@'
    i = 0
    if fmt and fmt[0] in '@=<>!':
        order = fmt[0]
        i = 1
    out = []
    for m in re.finditer(r'\s*(\d*)([a-zA-Z?])', fmt[i:]):
        n = int(m.group(1)) if m.group(1) else None
        out.append((n, m.group(2)))
    big = order in '>!'
    return order, big, out


def _flat(fmt):
    order, big, items = _parse_fmt(fmt)
    flat = []
    for n, c in items:
        if c == 's':
            flat.append(('s', n if n is not None else 1))
        elif c == 'x':
            flat.extend([('x', 1)] * (n if n is not None else 1))
        else:
            flat.extend([(c, 1)] * (n if n is not None else 1))
    return order, big, flat


def _csize(c, n):
    if c in _INTF:
        return _INTF[c][0]
    return {'s': n, 'c': 1, 'x': 1, '?': 1, 'd': 8, 'f': 4, 'e': 2}[c]


@model(struct.pack)
def m_pack(fmt, *vals):
    order, big, flat = _flat(fmt)
    if order == '@' and struct.calcsize(fmt) != sum(_csize(c, n) for c, n in flat):
        raise Unsupported('native alignment')
    need = sum(1 for c, n in flat if c != 'x')
    if need != len(vals):
        raise struct.error('pack expected %d items for packing (got %d)' % (need, len(vals)))
    out = []
    it = iter(vals)
    for c, n in flat:
        if c == 'x':
            out.append(0)
            continue
        v = next(it)
        if not isinstance(v, Sym):
            out.extend(struct.pack((order if order != '@' else '=') + ('%ds' % n if c == 's' else c), v))
            continue
        if c in _INTF:
            size, signed = _INTF[c]
            v = as_int(v)
            if v is None:
                raise struct.error('required argument is not an integer')
            lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
            if sym_or(v < lo, v > hi):
                raise struct.error('argument out of range')
            out.extend(bitems_of(int_bytes(v, size, big)))
        elif c == 'd':
            if not isinstance(v, (SymFP, SymInt, SymBool)):
                raise struct.error('required argument is not a float')
            e = as_fp(v)
            bv = z3.fpToIEEEBV(e)
            bs = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, bv)) for i in range(8)]
            if big:
                bs.reverse()
            out.extend(bs)
        elif c == 's':
            if not isinstance(v, SymBytes):
                raise struct.error("argument for 's' must be a bytes object")
            b = bitems_of(v)[:n]
            out.extend(b + [0] * (n - len(b)))
        elif c == 'c':
            if not isinstance(v, SymBytes) or len(v) != 1:
                raise struct.error('char format requires a bytes object of length 1')
            out.extend(bitems_of(v))
        elif c == '?':
            t = truth(v)
            out.extend(bitems_of(int_bytes(b2i(t), 1, big)))
        else:
            raise Unsupported('struct ' + c)
    return mk_bytes(out)


def _unpack(fmt, data, exact):
    order, big, flat = _flat(fmt)
    total = sum(_csize(c, n) for c, n in flat)
    if order == '@' and struct.calcsize(fmt) != total:
        raise Unsupported('native alignment')
    items = bitems_of(data)
    if (len(items) != total) if exact else (len(items) < total):
        raise struct.error('unpack requires a buffer of %d bytes' % total)
    out = []
    pos = 0
    for c, n in flat:
        k = _csize(c, n)
        bs = items[pos:pos + k]
        pos += k
        if c == 'x':
            continue
        if all(isinstance(b, int) for b in bs):
            out.append(struct.unpack((order if order != '@' else '=') + ('%ds' % n if c == 's' else c),
                                     bytes(bs))[0])
            continue
        es = [be(b) for b in (bs if big else reversed(bs))]
        e = es[0] if len(es) == 1 else z3.Concat(*es)
        if c in _INTF:
            if _INTF[c][1]:
                out.append(mk_int(e, -(1 << (8 * k - 1)), (1 << (8 * k - 1)) - 1))
            else:
                out.append(mk_int(z3.ZeroExt(1, e), 0, (1 << (8 * k)) - 1))
        elif c in 'sc':
            out.append(mk_bytes(bs))
        elif c == '?':
            out.append(mk_bool(e != 0))
        elif c == 'd':
            out.append(mk_fp(z3.fpBVToFP(e, F64)))
        else:
            raise Unsupported('struct ' + c)
    return tuple(out)


@model(struct.unpack)
def m_unpack(fmt, data):
    return _unpack(fmt, data, True)


@model(struct.unpack_from)
def m_unpack_from(fmt, data, offset=0):
    d = bitems_of(data)[concretize_index(offset):]
    order, big, flat = _flat(fmt)
    total = sum(_csize(c, n) for c, n in flat)
    if len(d) < total:
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % total)
    return _unpack(fmt, mk_bytes(d[:total]), True)


@model(int.from_bytes)
def m_from_bytes(b, byteorder='big', *, signed=False):
    es = [be(x) for x in bitems_of(b)]
    if byteorder == 'little':
        es.reverse()
    if not es:
        return 0
    e = z3.Concat(*es) if len(es) > 1 else es[0]
    n = 8 * len(es)
    if signed:
        return mk_int(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mk_int(z3.ZeroExt(1, e), 0, (1 << n) - 1)


class SymBytesIO(object):
    def __init__(self, init=b''):
        self.b = bitems_of(init)
        self.p = 0

    def write(self, x):
        xs = bitems_of(x)
        self.b[self.p:self.p + len(xs)] = xs
        self.p += len(xs)
        return len(xs)

    def getvalue(self):
        return mk_bytes(self.b)
    getbuffer = getvalue

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.b)
        n = concretize_index(n) if isinstance(n, SymInt) else n
        r = self.b[self.p:self.p + n]
        self.p += len(r)
        return mk_bytes(r)

    def tell(self):
        return self.p

    def seek(self, p, whence=0):
        self.p = p if whence == 0 else (self.p + p if whence == 1 else len(self.b) + p)
        return self.p

    def truncate(self, n=None):
        n = self.p if n is None else n
        del self.b[n:]
        return n

    def close(self):
        pass


@model(io.BytesIO)
def m_bytesio(*a):
    return SymBytesIO(*a)
m_bytesio.always = True


# ------------------------------------------------------------------------------------ urllib
_SAFE = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~')


def _ranges(cps):
    out = []
    for c in sorted(cps):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(r) for r in out]


def _quote(s, safe='/', encoding=None, errors=None, plus=False):
    if isinstance(s, SymBytes):
        bs = bitems_of(s)
    elif isinstance(s, SymStr):
        if s.has_atoms():
            # digits are always safe
            out = []
            for it in s.items:
                if isinstance(it, NumAtom):
                    out.append(it)
                else:
                    out.extend(items_of(_quote(mk_str([it]), safe, encoding, errors, plus)
                                        if not isinstance(it, int) else
                                        (urllib.parse.quote_plus if plus else urllib.parse.quote)(
                                            chr(it), safe, encoding, errors)))
            return mk_str(out)
        bs = bitems_of(s.encode(encoding or 'utf-8', errors or 'strict'))
    else:
        raise TypeError('quote_from_bytes() expected bytes')
    if isinstance(safe, str):
        safe = safe.encode('ascii', 'ignore')
    ok = _ranges(_SAFE | set(b for b in safe if b < 128) | (set([32]) if plus else set()))
    out = []
    for b in bs:
        if isinstance(b, int):
            if any(x <= b <= y for x, y in ok):
                out.append(b)
            else:
                out.extend(map(ord, '%%%02X' % b))
            continue
        c = z3.ZeroExt(CW - 8, b)
        if dec(z3.simplify(ch_set(c, ok))):
            out.append(c)
        else:
            v = byte_int(b)
            out.append(37)
            out.append(digit_char(v >> 4, True))
            out.append(digit_char(v & 15, True))
    if plus:
        res = []
        for c in out:
            if isinstance(c, int):
                res.append(43 if c == 32 else c)
            elif dec(ch_eq(c, 32)):
                res.append(43)
            else:
                res.append(c)
        out = res
    return mk_str(out)


@model(urllib.parse.quote)
def m_quote(string, safe='/', encoding=None, errors=None):
    return _quote(string, safe, encoding, errors)


@model(urllib.parse.quote_plus)
def m_quote_plus(string, safe='', encoding=None, errors=None):
    return _quote(string, safe, encoding, errors, True)


@model(urllib.parse.urlencode)
def m_urlencode(query, doseq=False, safe='', encoding=None, errors=None, quote_via=urllib.parse.quote_plus):
    if doseq:
        raise Unsupported('urlencode of sequences')

    def text(x):
        if isinstance(x, (bytes, SymBytes)):
            return call(quote_via, x, safe)
        return call(quote_via, call(str, x), safe, encoding, errors)
    out = ''
    for i, (k, v) in enumerate(list(query.items() if isinstance(query, dict) else query)):
        out = (out + '&' if i else out) + text(k) + '=' + text(v)
    return out
m_urlencode.deep = True


def _model_url_concat():
    import tornado.httputil

    def m_url_concat(url, args):
        if isinstance(url, Sym):
            url = str_of(url)
            if isinstance(url, Sym):
                if '#' in url or ';' in url:
                    raise Unsupported('url_concat: fragment or parameters')
                if '?' in url:
                    raise Unsupported('url_concat: query')
                head, q, tail = url, [], ''
            else:
                return m_url_concat(url, args)
        else:
            p = urllib.parse.urlparse(url)
            head = urllib.parse.urlunparse((p[0], p[1], p[2], p[3], '', ''))
            q = urllib.parse.parse_qsl(p.query, keep_blank_values=True)
            tail = '#' + p[5] if p[5] else ''
        q = q + list(args.items() if isinstance(args, dict) else args)
        if not q:
            return head + tail
        return head + '?' + m_urlencode(q) + tail
    m_url_concat.deep = True
    MODELS[tornado.httputil.url_concat] = m_url_concat


_model_url_concat()


def _hexval(c):
    """(is_hex Bool, BV8 value)"""
    if isinstance(c, int):
        ch = chr(c)
        if ch in '0123456789abcdefABCDEF':
            return core.TRUE, z3.BitVecVal(int(ch, 16), 8)
        return core.FALSE, z3.BitVecVal(0, 8)
    d, u, lo = ch_in(c, 48, 57), ch_in(c, 65, 70), ch_in(c, 97, 102)
    e = z3.Extract(7, 0, c)
    return z3.Or(d, u, lo), z3.If(d, e - 48, z3.If(u, e - 55, e - 87))


def _unquote_items(its, plus=False):
    """-> list of items, where a run of percent-decoded bytes is ('b', [bytes])"""
    out = []
    i = 0
    n = len(its)
    while i < n:
        c = its[i]
        if isinstance(c, NumAtom):
            out.append(c)
            i += 1
            continue
        if plus and dec(ch_eq(c, 43)):
            out.append(32)
            i += 1
            continue
        if i + 2 < n and dec(ch_eq(c, 37)):
            a, b = its[i + 1], its[i + 2]
            if not isinstance(a, NumAtom) and not isinstance(b, NumAtom):
                h1, v1 = _hexval(a)
                h2, v2 = _hexval(b)
                if dec(z3.simplify(z3.And(h1, h2))):
                    byte = z3.simplify(v1 * z3.BitVecVal(16, 8) + v2)
                    if z3.is_bv_value(byte):
                        byte = byte.as_long()
                    out.append(('b', byte))
                    i += 3
                    continue
        out.append(c)
        i += 1
    return out


def _unquote(string, encoding='utf-8', errors='replace', plus=False):
    if isinstance(string, SymBytes):
        string = string.decode(encoding, errors)
        if not isinstance(string, SymStr):
            return urllib.parse.unquote(string)
    its = list(string.items)
    # atoms next to a percent sign must be expanded
    if any(isinstance(x, NumAtom) for x in its):
        pct = [x for x in its if not isinstance(x, NumAtom) and not isinstance(x, int)] or \
              [x for x in its if isinstance(x, int) and x == 37]
        if pct:
            its = list(string.chars())
    toks = _unquote_items(its, plus)
    out = []
    i = 0
    enc = (encoding or 'utf-8')
    while i < len(toks):
        t = toks[i]
        if not isinstance(t, tuple):
            out.append(t)
            i += 1
            continue
        # urllib decodes maximal ASCII runs (percent escapes plus the ASCII text around them) together;
        # ASCII text cannot be part of a multi-byte sequence, so decoding escape runs is equivalent
        bs = []
        while i < len(toks) and isinstance(toks[i], tuple):
            bs.append(toks[i][1])
            i += 1
        out.extend(items_of(mk_bytes(bs).decode(enc, errors) if True else ''))
    return mk_str(out)


@model(urllib.parse.unquote)
def m_unquote(string, encoding='utf-8', errors='replace'):
    return _unquote(string, encoding, errors)


@model(urllib.parse.unquote_plus)
def m_unquote_plus(string, encoding='utf-8', errors='replace'):
    return _unquote(string, encoding, errors, True)


# -------------------------------------------------------------------------------------- json
class SymJson(Sym):
    """Text of a JSON document whose parsed value is `value` (leaves may be symbolic)."""
    __slots__ = ('value', 'isbytes')

    def __init__(self, value, isbytes=False):
        self.value = value
        self.isbytes = isbytes

    @property
    def pytype(self):
        return bytes if self.isbytes else str

    def truth(self):
        return True

    def __bool__(self):
        return True

    def decode(self, *a, **k):
        if not self.isbytes:
            raise AttributeError('decode')
        return SymJson(self.value, False)

    def __str__(self):
        return '<json>'
    __repr__ = __str__


@model(json.loads)
def m_json_loads(s, **k):
    if isinstance(s, SymJson):
        return s.value
    if isinstance(s, SymStr):
        return json.loads(s.concrete(), **k)
    if isinstance(s, SymBytes):
        return json.loads(s.concrete(), **k)
    return json.loads(s, **k)


@model(math.floor)
def m_floor(x):
    return x.__floor__() if isinstance(x, Sym) else math.floor(x)


@model(math.ceil)
def m_ceil(x):
    return x.__ceil__() if isinstance(x, Sym) else math.ceil(x)


@model(math.trunc)
def m_trunc(x):
    return m_int(x)


@model(math.isnan)
def m_isnan(x):
    if isinstance(x, SymFP):
        return mk_bool(z3.fpIsNaN(x.e))
    if isinstance(x, (SymInt, SymReal)):
        return False
    return math.isnan(x)


@model(math.isinf)
def m_isinf(x):
    if isinstance(x, SymFP):
        return mk_bool(z3.fpIsInf(x.e))
    if isinstance(x, (SymInt, SymReal)):
        return False
    return math.isinf(x)


@model(math.isfinite)
def m_isfinite(x):
    return sym_and(sym_not(m_isnan(x)), sym_not(m_isinf(x)))


for _f in ('match', 'search', 'fullmatch', 'split', 'sub', 'subn', 'findall', 'finditer'):
    MODELS[getattr(re, _f)] = resym.function(_f)


@model(re.escape)
def m_re_escape(s):
    return re.escape(s.concrete())


# -------------------------------------------------------------------------- threading models
class DeadlockError(core.Control):
    pass


class ModelLock(sched.CoopLock):
    deadlock = DeadlockError


@model(threading.Lock)
def m_lock():
    return ModelLock()
m_lock.always = m_lock.early = True


@model(threading.RLock)
def m_rlock():
    return ModelLock(True)
m_rlock.always = m_rlock.early = True


# ---------------------------------------------------------------------------------- dispatch
HOOKS = {}       # function -> callable (environment stubs, always applied)


def call(f, /, *a, **k):
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if core._ctx is None and m is not None and getattr(m, 'early', False):
        return m(*a, **k)
    if m is not None and core._ctx is not None:
        if getattr(m, 'always', False) or any_sym(a, k):
            return m(*a, **k)
        if getattr(m, 'deep', False) and deep_sym(a):
            return m(*a, **k)
        if (f is any or f is all or f is bytes or f is list or f is tuple) and a:
            pass
        if f is str and a and isinstance(a[0], BaseException) and any_sym(a[0].args):
            return str_of(a[0])
        if f is str and len(a) == 1 and not k and isinstance(getattr(type(a[0]), '__str__', None), types.FunctionType):
            r = type(a[0]).__str__(a[0])
            if isinstance(r, SymStr):
                return r
            if not isinstance(r, str):
                raise TypeError('__str__ returned non-string (type %s)' % type(r).__name__)
            return r
        if f in (any, all, sum):
            return m(*a, **k)
        if f is format and len(a) > 1 and isinstance(a[1], Sym):
            return m(*a, **k)
        if f is bytes and a and isinstance(a[0], (list, tuple)) and deep_sym(a[0]):
            return m(*a, **k)
    elif core._ctx is not None:
        s = getattr(f, '__self__', None)
        if type(s) is re.Pattern and any_sym(a, k):
            return resym.method(s, f.__name__, a, k)
        if s is not None and not isinstance(s, Sym) and type(s) in _NATIVE:
            return mcall_native(s, f, f.__name__, a, k)
        if isinstance(f, type) and f in _CTR and a and isinstance(a[0], Sym):
            return f(iter(a[0]))
    return f(*a, **k)


_CTR = (list, tuple)
_NATIVE = (str, bytes, bytearray, dict, struct.Struct)


def mcall(o, name, /, *a, **k):
    f = getattr(o, name)
    t = type(o)
    if t is re.Pattern and core._ctx is not None and any_sym(a, k):
        return resym.method(o, name, a, k)
    if t in _NATIVE and core._ctx is not None:
        return mcall_native(o, f, name, a, k)
    return call(f, *a, **k)


def mcall_native(o, f, name, a, k):
    t = type(o)
    if t is str:
        if name == 'join' and a:
            xs = list(a[0])
            if deep_sym(xs, 1):
                return sym_join(o, xs)
            return o.join(xs)
        if name == 'format':
            if deep_sym(a) or deep_sym(list(k.values())) or any(
                    isinstance(x, BaseException) and any_sym(x.args) for x in a):
                return str_format(o, a, k)
            return f(*a, **k)
        if any_sym(a, k) or (a and isinstance(a[0], tuple) and deep_sym(a[0])):
            return getattr(SymStr([ord(c) for c in o]), name)(*a, **k)
        return f(*a, **k)
    if t in (bytes, bytearray):
        if name == 'join' and a:
            xs = list(a[0])
            if deep_sym(xs, 1):
                return sym_join(o, xs)
            return f(xs)
        if any_sym(a, k):
            return getattr(SymBytes(list(o)), name)(*a, **k)
        return f(*a, **k)
    if t is dict:
        if a and _symkey(a[0]) and name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__'):
            if name == 'get':
                for kk, vv in o.items():
                    if a[0] == kk:
                        return vv
                return a[1] if len(a) > 1 else k.get('default')
            if name == '__contains__':
                return contains(a[0], o)
            raise Unsupported('symbolic key in plain dict')
        return f(*a, **k)
    if t is struct.Struct:
        if name == 'pack' and any_sym(a):
            return m_pack(o.format, *a)
        if name == 'unpack' and any_sym(a):
            return m_unpack(o.format, *a)
        if name == 'unpack_from' and any_sym(a):
            return m_unpack_from(o.format, *a, **k)
    return f(*a, **k)


def contains(x, c):
    """x in c"""
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(c, str) and isinstance(x, SymStr):
        return SymStr([ord(ch) for ch in c]).contains(x)
    if isinstance(c, (SymBytes,)):
        return x in c
    if isinstance(c, XDict):
        return x in c
    if _symkey(x) and isinstance(c, (dict, set, frozenset)):
        for k in c:
            if x == k:
                return True
        return False
    if isinstance(x, Sym) and isinstance(c, (list, tuple)):
        for k in c:
            if x is k or x == k:
                return True
        return False
    return x in c


def getitem(o, k):
    if type(o) is dict and _symkey(k):
        for kk, vv in o.items():
            if k == kk:
                return vv
        raise KeyError(k)
    if isinstance(o, (str, bytes, bytearray, list, tuple)):
        if isinstance(k, SymInt):
            n = len(o)
            if sym_or(k >= n, k < -n):
                raise IndexError('index out of range')
            k = concretize_index(SymInt(*values_narrow(k, -n, n - 1)), limit=4096)
        elif isinstance(k, slice) and any(isinstance(v, Sym) for v in (k.start, k.stop, k.step)):
            k = conc_slice(k, len(o))
    return o[k]


def mod(a, b):
    if isinstance(a, str):
        if deep_sym(b) or isinstance(b, BaseException) or (
                isinstance(b, tuple) and any(isinstance(x, BaseException) or own_text(x) is not None for x in b)) or own_text(b) is not None:
            return str_mod(a, b)
        return a % b
    return a % b


def iadd(a, b):
    if isinstance(a, SymByteArray):
        a += b
        return a
    if type(a) is bytearray and isinstance(b, SymBytes):
        raise Unsupported('bytearray += symbolic')
    a += b
    return a


def is_(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        return bool(a) is b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return bool(b) is a
    return a is b


def mk_dict(pairs, *rest):
    d = XDict()
    for p in pairs:
        if len(p) == 2:
            d[p[0]] = p[1]
        else:
            d.update(p[0])
    return d
