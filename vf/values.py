"""Symbolic Python values: exact Python semantics over z3 terms.

SymInt   unbounded Python int as a signed bit-vector that is widened as needed (never wraps)
SymBool  bool
SymFP    float as IEEE-754 binary64 (round-nearest-even), exact
SymReal  float approximated by a mathematical real (only where a harness asks for it)
SymStr   str of concrete length per path; characters are code points or 21-bit vectors,
         or a "number atom" (hex/decimal rendering of a SymInt) that is expanded on demand
SymBytes / SymByteArray  bytes with 8-bit vectors
"""
import math
import z3
from . import core
from .core import Unsupported

F64 = z3.Float64()
RNE = z3.RNE()


def C():
    return core._ctx


class Sym(object):
    __slots__ = ()
    pytype = object


def is_sym(x):
    return isinstance(x, Sym)


def nbits(lo, hi):
    """Width of the smallest signed bit-vector holding [lo, hi]."""
    return max(lo.bit_length() + (0 if lo >= 0 else 0), hi.bit_length(),
               (-lo - 1).bit_length() if lo < 0 else 0) + 1


def sext(e, w):
    d = w - e.size()
    if d > 0:
        return z3.SignExt(d, e)
    return e


# --------------------------------------------------------------------------------------- bool
class SymBool(Sym):
    __slots__ = ('e',)
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return C().decide(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(z3.And(self.e, bexpr(o)))
        return b2i(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(z3.Or(self.e, bexpr(o)))
        return b2i(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(z3.Xor(self.e, bexpr(o)))
        return b2i(self) ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(self.e == bexpr(o))
        if isinstance(o, (int, float, SymInt, SymFP, SymReal)):
            return b2i(self) == o
        return False

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return '<SymBool>'

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __getattr__(self, n):
        if n.startswith('__') or not hasattr(True, n):
            raise AttributeError(n)
        return getattr(b2i(self), n)


for _n in ('add', 'sub', 'mul', 'lshift', 'rshift', 'floordiv', 'mod', 'truediv', 'lt', 'le', 'gt', 'ge',
           'radd', 'rsub', 'rmul'):
    def _mk(n):
        def f(self, *a):
            x = b2i(self)
            m = getattr(type(x), '__%s__' % n)
            return m(x, *a)
        return f
    setattr(SymBool, '__%s__' % _n, _mk(_n))


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(b):
    if isinstance(b, SymBool):
        return b.e
    return core.TRUE if b else core.FALSE


def truth(x):
    """Truthiness of x as bool or SymBool, without deciding."""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, (SymFP, SymReal)):
        return x != 0.0
    if isinstance(x, Sym) and hasattr(x, 'truth'):
        return x.truth()
    return bool(x)


def sym_not(x):
    if x is NotImplemented:
        return x
    x = truth(x)
    if isinstance(x, SymBool):
        return mk_bool(z3.Not(x.e))
    return not x


def sym_and(*xs):
    es = []
    for x in xs:
        x = truth(x)
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return mk_bool(z3.And(*es) if len(es) > 1 else es[0])


def sym_or(*xs):
    es = []
    for x in xs:
        x = truth(x)
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return mk_bool(z3.Or(*es) if len(es) > 1 else es[0])


def b2i(b):
    if isinstance(b, SymBool):
        return SymInt(z3.If(b.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    return int(b)


# ---------------------------------------------------------------------------------------- int
def mk_int(e, lo, hi):
    """e: signed bit-vector of any width holding a value known to be in [lo, hi]."""
    if lo == hi:
        return lo
    if z3.is_bv_value(e):
        return e.as_signed_long()
    w = nbits(lo, hi)
    if e.size() > w:
        e = z3.Extract(w - 1, 0, e)
    return SymInt(e, lo, hi)


def as_int(x):
    """SymInt|int|bool|SymBool -> SymInt or int; None when not an integer."""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SymBool):
        return b2i(x)
    return None


def iv(x):
    return (x.lo, x.hi) if isinstance(x, SymInt) else (x, x)


def iexpr(x, w):
    if isinstance(x, SymInt):
        return sext(x.e, w)
    return z3.BitVecVal(x, w)


class SymInt(Sym):
    __slots__ = ('e', 'lo', 'hi')
    pytype = int

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    # arithmetic
    def _bin(self, o, lo, hi, f):
        olo, ohi = iv(o)
        w = max(nbits(lo, hi), nbits(self.lo, self.hi), nbits(olo, ohi))
        return mk_int(f(iexpr(self, w), iexpr(o, w)), lo, hi)

    def __add__(self, o):
        p = as_int(o)
        if p is None:
            return float_op(self, o, 'add')
        a, b = iv(p)
        return self._bin(p, self.lo + a, self.hi + b, lambda x, y: x + y)
    __radd__ = __add__

    def __sub__(self, o):
        p = as_int(o)
        if p is None:
            return float_op(self, o, 'sub')
        a, b = iv(p)
        return self._bin(p, self.lo - b, self.hi - a, lambda x, y: x - y)

    def __rsub__(self, o):
        p = as_int(o)
        if p is None:
            return float_op(o, self, 'sub')
        a, b = iv(p)
        return self._bin(p, a - self.hi, b - self.lo, lambda x, y: y - x)

    def __mul__(self, o):
        p = as_int(o)
        if p is None:
            if isinstance(o, (str, bytes, list, tuple, SymStr, SymBytes)):
                return o * repeat_count(self)
            return float_op(self, o, 'mul')
        a, b = iv(p)
        ps = [self.lo * a, self.lo * b, self.hi * a, self.hi * b]
        return self._bin(p, min(ps), max(ps), lambda x, y: x * y)
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        m = max(-self.lo, self.hi)
        w = nbits(-m, m)
        x = sext(self.e, w)
        return mk_int(z3.If(x < 0, -x, x), 0, m)

    def __invert__(self):
        return mk_int(~self.e, ~self.hi, ~self.lo)

    def __and__(self, o):
        p = as_int(o)
        if p is None:
            return NotImplemented
        a, b = iv(p)
        if a >= 0 and b == a:                     # constant mask
            w = max(nbits(0, a), 1)
            e = sext(self.e, w)
            if e.size() > w:
                e = z3.Extract(w - 1, 0, e)
            hi = a if self.lo < 0 else min(a, self.hi)
            if a & (a + 1) == 0 and self.lo >= 0 and self.hi <= a:
                return self
            return mk_int(e & z3.BitVecVal(a, w), 0, hi)
        lo = 0 if (a >= 0 or self.lo >= 0) else -(1 << max(nbits(self.lo, self.hi), nbits(a, b)))
        if a >= 0 and self.lo >= 0:
            hi = min(self.hi, b)
        elif a >= 0:
            hi = b
        elif self.lo >= 0:
            hi = self.hi
        else:
            hi = max(self.hi, b, 0)
            hi = (1 << hi.bit_length()) - 1
        return self._bin(p, lo, hi, lambda x, y: x & y)
    __rand__ = __and__

    def _orx(self, o, f, isor):
        p = as_int(o)
        if p is None:
            return NotImplemented
        a, b = iv(p)
        if a >= 0 and self.lo >= 0:
            hi = (1 << max(b, self.hi).bit_length()) - 1
            lo = max(a, self.lo) if isor else 0
        else:
            n = max(nbits(a, b), nbits(self.lo, self.hi))
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        return self._bin(p, lo, hi, f)

    def __or__(self, o):
        return self._orx(o, lambda x, y: x | y, True)
    __ror__ = __or__

    def __xor__(self, o):
        return self._orx(o, lambda x, y: x ^ y, False)
    __rxor__ = __xor__

    def __lshift__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymInt):
            o = concretize_index(o)
        if o < 0:
            raise ValueError('negative shift count')
        if o > 4096:
            raise Unsupported('huge shift')
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << concretize_index(self)

    def __rshift__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymInt):
            o = concretize_index(o)
        if o < 0:
            raise ValueError('negative shift count')
        lo, hi = self.lo >> o, self.hi >> o
        w = self.e.size()
        if o >= w:
            return mk_int(z3.If(self.e < 0, z3.BitVecVal(-1, 2), z3.BitVecVal(0, 2)), lo, hi)
        return mk_int(z3.Extract(w - 1, o, self.e), lo, hi)

    def __rrshift__(self, o):
        return o >> concretize_index(self)

    def _nz(self, p):
        if isinstance(p, SymInt):
            if p == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
        elif p == 0:
            raise ZeroDivisionError('integer division or modulo by zero')

    def __mod__(self, o):
        p = as_int(o)
        if p is None:
            return float_op(self, o, 'mod')
        return int_divmod(self, p)[1]

    def __rmod__(self, o):
        p = as_int(o)
        if p is None:
            return NotImplemented
        return int_divmod(p, self)[1]

    def __floordiv__(self, o):
        p = as_int(o)
        if p is None:
            return float_op(self, o, 'floordiv')
        return int_divmod(self, p)[0]

    def __rfloordiv__(self, o):
        p = as_int(o)
        if p is None:
            return NotImplemented
        return int_divmod(p, self)[0]

    def __divmod__(self, o):
        return int_divmod(self, as_int(o))

    def __truediv__(self, o):
        return float_op(self, o, 'truediv')

    def __rtruediv__(self, o):
        return float_op(o, self, 'truediv')

    def __pow__(self, o, m=None):
        if isinstance(o, SymInt):
            o = concretize_index(o)
        if m is not None or not isinstance(o, int) or o < 0 or o > 8:
            raise Unsupported('pow')
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        return o ** concretize_index(self)

    # comparison
    def _cmp(self, o, op):
        p = as_int(o)
        if p is None:
            if isinstance(o, (float, SymFP, SymReal)):
                return cmp_int_float(self, o, op)
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        a, b = iv(p)
        lo, hi = self.lo, self.hi
        if op in ('eq', 'ne'):
            if hi < a or lo > b:
                return op == 'ne'
        elif op == 'lt':
            if hi < a:
                return True
            if lo >= b:
                return False
        elif op == 'le':
            if hi <= a:
                return True
            if lo > b:
                return False
        elif op == 'gt':
            if lo > b:
                return True
            if hi <= a:
                return False
        elif op == 'ge':
            if lo >= b:
                return True
            if hi < a:
                return False
        w = max(nbits(lo, hi), nbits(a, b))
        x, y = iexpr(self, w), iexpr(p, w)
        e = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y,
             'gt': lambda: x > y, 'ge': lambda: x >= y}[op]()
        return mk_bool(e)

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def truth(self):
        return self != 0

    def __bool__(self):
        t = self != 0
        return bool(t)

    # concretising protocols
    def __index__(self):
        return concretize_index(self)
    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(concretize_index(self))

    def __hash__(self):
        return hash(concretize_index(self))

    def __repr__(self):
        return '<SymInt>'

    def __str__(self):
        return str(concretize_index(self))

    def __format__(self, spec):
        return format(concretize_index(self), spec)

    def bit_length(self):
        a = abs(self)
        n = max(abs(self.lo), abs(self.hi)).bit_length()
        r = 0
        for i in range(n):
            r = ite_int(a >= (1 << i), i + 1, r)
        return r

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if signed:
            lo, hi = -(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1
        else:
            lo, hi = 0, (1 << (8 * length)) - 1
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
        if sym_or(self < lo, self > hi):
            raise OverflowError('int too big to convert')
        return int_bytes(self, length, byteorder == 'big')

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self
    __ceil__ = __floor__

    def is_integer(self):
        return True


def int_bytes(x, length, big):
    w = 8 * length
    if isinstance(x, int):
        v = x & ((1 << w) - 1)
        bs = [(v >> (8 * i)) & 255 for i in range(length)]
    else:
        e = sext(x.e, w)
        bs = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, e)) for i in range(length)]
    if big:
        bs.reverse()
    return mk_bytes(bs)


def int_divmod(a, b):
    """Python floor division / modulo of integers, at least one symbolic."""
    if isinstance(b, SymInt):
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
    elif b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    (alo, ahi), (blo, bhi) = iv(a), iv(b)
    m = max(abs(blo), abs(bhi))
    am = max(abs(alo), abs(ahi))
    w = max(nbits(alo, ahi), nbits(blo, bhi), nbits(-am, am)) + 1
    x, y = iexpr(a, w), iexpr(b, w)
    if alo >= 0 and blo > 0:
        q, r = z3.UDiv(x, y), z3.URem(x, y)
        return (mk_int(q, alo // bhi, ahi // blo),
                mk_int(r, 0, min(m - 1, ahi)))
    r = x % y                       # bvsmod: sign of the divisor
    q = (x - r) / y
    rlo = 0 if blo > 0 else -(m - 1)
    rhi = 0 if bhi < 0 else m - 1
    return mk_int(q, -am, am), mk_int(r, rlo, rhi)


def ite_int(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    (alo, ahi), (blo, bhi) = iv(a), iv(b)
    lo, hi = min(alo, blo), max(ahi, bhi)
    w = nbits(lo, hi)
    return mk_int(z3.If(c.e, iexpr(a, w), iexpr(b, w)), lo, hi)


def concretize_index(x, limit=40):
    """Concrete int for x.  Small ranges are enumerated exhaustively by forking; otherwise one
    value is picked and the path is marked as not fully symbolic."""
    if not isinstance(x, SymInt):
        return x
    c = C()
    v = z3.simplify(x.e)
    if z3.is_bv_value(v):
        return v.as_signed_long()
    if x.hi - x.lo <= limit:
        for k in range(x.lo, x.hi):
            if c.decide(x.e == z3.BitVecVal(k, x.e.size())):
                return k
        return x.hi
    # enumerate a few values found by the solver, then give up on completeness
    n = 0
    while n < 12:
        m = c.get_model()
        k = m.eval(x.e, model_completion=True)
        # value choice must be reproducible on re-execution: recorded through decide()
        if c.decide_value(x.e, k):
            return c.last_value
        n += 1
    c.incomplete.append('concretised integer')
    v = c.choose_value(x.e)
    return v.as_signed_long()


def text_items(s):
    """items_of, but a text without an encoding stays as it is (see mk_text)"""
    return [s] if isinstance(s, LazyStr) and s.it is None else items_of(s)


def mk_text(parts):
    """text out of characters and lazily rendered texts"""
    if any(isinstance(p, LazyStr) for p in parts):
        def render():
            out = []
            for p in parts:
                out.extend(items_of(p) if isinstance(p, LazyStr) else [p])
            return mk_str(out)
        return LazyStr(render)
    return mk_str(parts)


def repeat_count(n):
    """Concrete n for a repetition: a count an input can drive beyond any sensible work is reported."""
    if isinstance(n, SymInt) and n.hi > (1 << 28) and C().decide(n.e > z3.BitVecVal(1 << 28, n.e.size())):
        from . import models
        raise models.LoopBound()
    return concretize_index(n)


def _decide_value(self, e, k):
    """Branch e == k where k came from a model; the constant is recorded in the trail so that a
    re-execution takes the same one."""
    i = len(self.trail)
    if i < len(self.prefix):
        taken, h = self.prefix[i]
        val = h[1]
        kk = z3.BitVecVal(val, e.size())
        self.trail.append((taken, h))
        self.add(e == kk if taken else e != kk)
        self.last_value = kk.as_signed_long()
        return taken
    val = k.as_long()
    h = ('v', val)
    self.last_value = k.as_signed_long()
    r = self._check(e != k)
    if r == z3.sat:
        self.pending.append(list(self.trail) + [(False, h)])
    elif r == z3.unknown:
        self.inconclusive.append('unknown: concretisation')
    self.trail.append((True, h))
    self.asserts.append(e == k)
    self.solver.add(e == k)
    return True


core.Ctx.decide_value = _decide_value


def int_var(name, lo, hi):
    c = C()
    if lo == hi:
        return lo
    w = nbits(lo, hi)
    v = z3.BitVec(c.fresh(name), w)
    if lo != -(1 << (w - 1)) :
        c.add(v >= z3.BitVecVal(lo, w))
    if hi != (1 << (w - 1)) - 1:
        c.add(v <= z3.BitVecVal(hi, w))
    return SymInt(v, lo, hi)


# -------------------------------------------------------------------------------------- float
def fpval(x):
    return z3.FPVal(x, F64)


def as_fp(x):
    """FP term for a number, or None."""
    if isinstance(x, SymFP):
        return x.e
    if isinstance(x, bool):
        return fpval(float(x))
    if isinstance(x, float):
        return fpval(x)
    if isinstance(x, int):
        return fpval(float(x))
    if isinstance(x, SymBool):
        return z3.If(x.e, fpval(1.0), fpval(0.0))
    if isinstance(x, SymInt):
        return z3.fpSignedToFP(RNE, x.e, F64)
    return None


def as_real(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return None
        n, d = x.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, SymInt):
        return z3.ToReal(z3.BV2Int(x.e, is_signed=True))
    return None


def float_op(a, b, op):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        x, y = as_real(a), as_real(b)
        if x is None or y is None:
            if isinstance(a, (int, float, Sym)) and isinstance(b, (int, float, Sym)) and \
                    not isinstance(a, (SymStr, SymBytes)) and not isinstance(b, (SymStr, SymBytes)):
                raise Unsupported('real arithmetic with nan/inf')
            return NotImplemented
        if op == 'add':
            return mk_real(x + y)
        if op == 'sub':
            return mk_real(x - y)
        if op == 'mul':
            return mk_real(x * y)
        if op == 'truediv':
            if mk_bool(z3.simplify(y == 0)):
                raise ZeroDivisionError('float division by zero')
            return mk_real(x / y)
        raise Unsupported('real ' + op)
    x, y = as_fp(a), as_fp(b)
    if x is None or y is None:
        return NotImplemented
    if op == 'add':
        return mk_fp(z3.fpAdd(RNE, x, y))
    if op == 'sub':
        return mk_fp(z3.fpSub(RNE, x, y))
    if op == 'mul':
        return mk_fp(z3.fpMul(RNE, x, y))
    if op == 'truediv':
        if mk_bool(z3.simplify(z3.fpIsZero(y))):
            raise ZeroDivisionError('float division by zero')
        return mk_fp(z3.fpDiv(RNE, x, y))
    raise Unsupported('float ' + op)


def fp_const(e):
    """Python float of a constant FP term, or None."""
    e = z3.simplify(e)
    if z3.is_fp_value(e):
        if e.isNaN():
            return float('nan')
        if e.isInf():
            return float('-inf') if e.isNegative() else float('inf')
        if e.isZero():
            return -0.0 if e.isNegative() else 0.0
        bv = z3.simplify(z3.fpToIEEEBV(e))
        if z3.is_bv_value(bv):
            import struct
            return struct.unpack('>d', bv.as_long().to_bytes(8, 'big'))[0]
    return None


def mk_fp(e):
    v = fp_const(e)
    if v is not None:
        return v
    return SymFP(e)


def mk_real(e):
    e = z3.simplify(e)
    return SymReal(e)


class _SymFloat(Sym):
    __slots__ = ('e',)
    pytype = float

    def __init__(self, e):
        self.e = e

    def __add__(self, o):
        return float_op(self, o, 'add')

    def __radd__(self, o):
        return float_op(o, self, 'add')

    def __sub__(self, o):
        return float_op(self, o, 'sub')

    def __rsub__(self, o):
        return float_op(o, self, 'sub')

    def __mul__(self, o):
        return float_op(self, o, 'mul')

    def __rmul__(self, o):
        return float_op(o, self, 'mul')

    def __truediv__(self, o):
        return float_op(self, o, 'truediv')

    def __rtruediv__(self, o):
        return float_op(o, self, 'truediv')

    def __floordiv__(self, o):
        return float_op(self, o, 'floordiv')

    def __mod__(self, o):
        return float_op(self, o, 'mod')

    def __pos__(self):
        return self

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def truth(self):
        return self != 0.0

    def __bool__(self):
        return bool(self != 0.0)

    def __hash__(self):
        return hash(self.__float__())

    def __str__(self):
        return str(self.__float__())

    def __format__(self, spec):
        return format(self.__float__(), spec)

    @property
    def real(self):
        return self

    def is_integer(self):
        raise Unsupported('is_integer')


class SymFP(_SymFloat):
    __slots__ = ()

    def _cmp(self, o, op):
        if isinstance(o, SymReal):
            raise Unsupported('mixing FP and Real')
        p = as_int(o)
        if p is not None:
            sw = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[op]
            if isinstance(p, int) and abs(p) <= 1 << 53:
                o = float(p)
            else:
                return cmp_int_float(p, self, sw)
        y = as_fp(o)
        if y is None:
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        x = self.e
        f = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[op]
        return mk_bool(z3.simplify(f(x, y)))

    def __neg__(self):
        return mk_fp(z3.fpNeg(self.e))

    def __abs__(self):
        return mk_fp(z3.fpAbs(self.e))

    def __float__(self):
        c = C()
        m = c.get_model()
        v = m.eval(self.e, model_completion=True)
        f = fp_const(v)
        if f is None:
            raise Unsupported('fp value')
        c.add(self.e == v)
        c.concretised += 1
        c.incomplete.append('concretised float')
        return f

    def __repr__(self):
        return '<SymFP>'

    def generic(self):
        """A concrete value, with as many digits as possible: for operations without an encoding."""
        c = C()
        c.incomplete.append('concretised float')
        bits = z3.FreshConst(z3.BitVecSort(64), 'fpbits')
        c.add(z3.fpBVToFP(bits, F64) == self.e)
        for pat in (0x5a5a5, 0xb4b47):
            if c.decide(z3.Extract(19, 0, bits) == z3.BitVecVal(pat, 20)):
                break
        return self.__float__()

    def __int__(self):
        return concretize_index(fp_trunc(self))

    def __round__(self, n=None):
        if n is None:
            return fp_trunc(mk_fp(z3.fpRoundToIntegral(RNE, self.e)))
        return round(self.generic(), n)

    def __floor__(self):
        return fp_trunc(mk_fp(z3.fpRoundToIntegral(z3.RTN(), self.e)))

    def __ceil__(self):
        return fp_trunc(mk_fp(z3.fpRoundToIntegral(z3.RTP(), self.e)))

    __trunc__ = __int__


FP_INT_BITS = 90


def fp_trunc(x, bits=FP_INT_BITS):
    """int(float): truncation toward zero.  Magnitudes >= 2^(bits-1) are outside the encoding."""
    if isinstance(x, float):
        return int(x)
    c = C()
    if c.decide(z3.fpIsNaN(x.e)):
        raise ValueError('cannot convert float NaN to integer')
    if c.decide(z3.fpIsInf(x.e)):
        raise OverflowError('cannot convert float infinity to integer')
    lim = float(1 << (bits - 1))
    if c.decide(z3.Not(z3.And(z3.fpLT(x.e, fpval(lim)), z3.fpGT(x.e, fpval(-lim))))):
        return int(x.__float__())
    e = z3.fpToSBV(z3.RTZ(), x.e, z3.BitVecSort(bits))
    return mk_int(e, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)


class SymReal(_SymFloat):
    __slots__ = ()

    def _cmp(self, o, op):
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            if math.isnan(o):
                return op == 'ne'
            return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False, 'ne': True}[op]
        y = as_real(o)
        if y is None:
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        x = self.e
        e = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]
        return mk_bool(z3.simplify(e))

    def __neg__(self):
        return mk_real(-self.e)

    def __abs__(self):
        return mk_real(z3.If(self.e < 0, -self.e, self.e))

    def __float__(self):
        c = C()
        v = c.choose_value(self.e)
        c.incomplete.append('concretised real')
        return real_const(v)

    def __repr__(self):
        return '<SymReal>'

    def __int__(self):
        raise Unsupported('int(real)')

    def __floor__(self):
        c = C()
        for k in (0, 1, 2, 3, 4, -1, -2):
            if c.decide(z3.And(self.e >= k, self.e < k + 1)):
                return k
        return math.floor(float(self))

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))

    def __round__(self, n=None):
        """to the nearest multiple of 10**-n, ties to even (of the mathematical value)"""
        p = 10 ** (n or 0) if (n or 0) >= 0 else z3.Q(1, 10 ** -n)
        y = self.e * p
        k = z3.ToInt(y + z3.Q(1, 2))
        tie = z3.And(z3.ToReal(k) == y + z3.Q(1, 2), k % 2 == 1)
        k = z3.If(tie, k - 1, k)
        if n is None:
            return SymRealInt(z3.simplify(z3.ToReal(k)))
        return mk_real(z3.ToReal(k) / p)

    def trunc(self):
        """int(x): an integer kept as a real expression"""
        e = self.e
        return SymRealInt(z3.simplify(z3.ToReal(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))))


class SymRealInt(SymReal):
    __slots__ = ()
    pytype = int

    def trunc(self):
        return self


def real_const(v):
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    raise Unsupported('real constant %s' % v)


def cmp_int_float(i, f, op):
    """Exact comparison of an integer with a float (Python compares the mathematical values)."""
    if isinstance(f, float):
        if math.isnan(f):
            return op == 'ne'
        if math.isinf(f):
            big = f > 0
            return {'lt': big, 'le': big, 'gt': not big, 'ge': not big, 'eq': False, 'ne': True}[op]
        fl = math.floor(f)
        if op in ('eq', 'ne'):
            if fl != f:
                return op == 'ne'
            return i == fl if op == 'eq' else i != fl
        if op == 'lt':
            return i < math.ceil(f)
        if op == 'le':
            return i <= fl
        if op == 'gt':
            return i > fl
        return i >= math.ceil(f)
    if isinstance(f, SymReal):
        x, y = as_real(i), f.e
        e = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]
        return mk_bool(e)
    lo, hi = iv(i)
    w = nbits(lo, hi)
    if isinstance(i, int) or (abs(lo) <= 1 << 53 and abs(hi) <= 1 << 53):
        if abs(lo) <= 1 << 53 and abs(hi) <= 1 << 53:     # exactly representable
            x, y = as_fp(i), f.e
            fn = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT,
                  'ge': z3.fpGEQ}[op]
            return mk_bool(fn(x, y))
    W = w + 2
    lim = z3.FPVal(float(1 << (W - 1)), F64)
    e = f.e
    inside = z3.And(z3.fpLT(e, lim), z3.fpGT(e, z3.fpNeg(lim)))
    x = iexpr(i, W)
    if op in ('lt', 'ge'):
        t = z3.fpToSBV(z3.RTP(), e, z3.BitVecSort(W))       # ceil
        lt = z3.And(z3.Not(z3.fpIsNaN(e)), z3.If(inside, x < t, z3.fpGT(e, fpval(0.0))))
        if op == 'lt':
            return mk_bool(lt)
        return mk_bool(z3.And(z3.Not(z3.fpIsNaN(e)), z3.Not(lt)))
    if op in ('gt', 'le'):
        t = z3.fpToSBV(z3.RTN(), e, z3.BitVecSort(W))       # floor
        gt = z3.And(z3.Not(z3.fpIsNaN(e)), z3.If(inside, x > t, z3.fpLT(e, fpval(0.0))))
        if op == 'gt':
            return mk_bool(gt)
        return mk_bool(z3.And(z3.Not(z3.fpIsNaN(e)), z3.Not(gt)))
    t = z3.fpToSBV(z3.RTZ(), e, z3.BitVecSort(W))
    eq = z3.And(inside, z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), e), e), x == t)
    return mk_bool(eq if op == 'eq' else z3.Not(eq))


# ----------------------------------------------------------------------------------- strings
CW = 21


def ch_e(c):
    return c if not isinstance(c, int) else z3.BitVecVal(c, CW)


def ch_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return core.TRUE if a == b else core.FALSE
    if isinstance(a, int):
        a, b = b, a
    return a == ch_e(b)


def ch_in(c, lo, hi):
    """lo <= c <= hi as z3 Bool"""
    if isinstance(c, int):
        return core.TRUE if lo <= c <= hi else core.FALSE
    if lo == hi:
        return c == z3.BitVecVal(lo, CW)
    if lo == 0:
        return z3.ULE(c, z3.BitVecVal(hi, CW))
    return z3.And(z3.UGE(c, z3.BitVecVal(lo, CW)), z3.ULE(c, z3.BitVecVal(hi, CW)))


def ch_set(c, ranges):
    if isinstance(c, int):
        return core.TRUE if any(a <= c <= b for a, b in ranges) else core.FALSE
    return z3.Or(*[ch_in(c, a, b) for a, b in ranges])


_CLASSES = {}


def char_class(name):
    """Code point ranges of a str predicate, read off the running Python."""
    r = _CLASSES.get(name)
    if r is None:
        r, start = [], None
        for i in range(0x110000):
            if getattr(chr(i), name)():
                if start is None:
                    start = i
            elif start is not None:
                r.append((start, i - 1))
                start = None
        if start is not None:
            r.append((start, 0x10ffff))
        _CLASSES[name] = r
    return r


def dec(e):
    """decide a z3 Bool"""
    return C().decide(e)


_SPREAD = [[(37, 37)], [(123, 123), (125, 125)], [(65, 90)], [(0, 31), (127, 159)], [(32, 32)], [(256, 0x10ffff)],
           [(128, 255)], [(34, 34), (39, 39), (92, 92)], [(33, 47), (58, 64)], [(97, 122)]]


def spread(syms, inside):
    """Before one value of a text is picked for an operation without an encoding: one path for each kind of
    character it may contain (the first two times on a path)."""
    c = C()
    n = getattr(c, 'spreads', 0)
    if not syms or n >= 2:
        return
    c.spreads = n + 1
    for rngs in _SPREAD:
        rngs = [(a, b) for a, b in rngs if inside is ch_in or b < 256]
        if rngs and dec(z3.simplify(z3.Or(*[inside(x, a, b) for x in syms for a, b in rngs]))):
            return


class NumAtom(object):
    """Rendering of a non-negative SymInt in base 10/16, optionally zero-padded."""
    __slots__ = ('v', 'base', 'pad', 'upper', '_chars')

    def __init__(self, v, base, pad=1, upper=False):
        self.v = v
        self.base = base
        self.pad = max(pad, 1)
        self.upper = upper
        self._chars = None

    def ndig(self, n):
        k = 1
        while n >= self.base ** k:
            k += 1
        return k

    def minlen(self):
        return max(self.pad, self.ndig(self.v.lo))

    def maxlen(self):
        return max(self.pad, self.ndig(self.v.hi))

    def chars(self):
        if self._chars is None:
            n = self.minlen()
            mx = self.maxlen()
            while n < mx and not (self.v < self.base ** n):
                n += 1
            out = []
            for i in range(n):
                d = self.digit(i)
                out.append(digit_char(d, self.upper))
            out.reverse()
            self._chars = out
        return self._chars

    def digit(self, i):
        if self.base == 16:
            return (self.v >> (4 * i)) & 15
        return (self.v // (10 ** i)) % 10

    def may_contain(self, cp):
        if 48 <= cp <= 57:
            return True
        if self.base == 16:
            return (65 <= cp <= 70) if self.upper else (97 <= cp <= 102)
        return False


def digit_char(d, upper=False):
    if isinstance(d, int):
        c = '0123456789abcdef'[d]
        return ord(c.upper() if upper else c)
    e = z3.ZeroExt(CW - d.e.size(), d.e) if d.e.size() < CW else z3.Extract(CW - 1, 0, d.e)
    off = (65 if upper else 97) - 10
    if d.hi < 10:
        return e + z3.BitVecVal(48, CW)
    return z3.If(z3.ULT(e, z3.BitVecVal(10, CW)), e + z3.BitVecVal(48, CW), e + z3.BitVecVal(off, CW))


def mk_str(items):
    """Build a str or SymStr from code points / BV21 / NumAtom items."""
    out = []
    symbolic = False
    for it in items:
        if isinstance(it, NumAtom):
            symbolic = True
        elif not isinstance(it, int):
            if z3.is_bv_value(it):
                it = it.as_long()
            else:
                symbolic = True
        out.append(it)
    if not symbolic:
        return ''.join(map(chr, out))
    return SymStr(out)


def items_of(s):
    if isinstance(s, SymStr):
        return list(s.items)
    return [ord(c) for c in s]


def chars_of(s):
    if isinstance(s, SymStr):
        return s.chars()
    return [ord(c) for c in s]


_WS = [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
       (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]


_NL = [(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)]
_WS8 = [(9, 13), (32, 32)]


def ws_split(items, maxsplit, isws):
    """str.split() / bytes.split() without a separator: lists of characters"""
    out, i, n = [], 0, len(items)
    while True:
        while i < n and isws(items[i]):
            i += 1
        if i >= n:
            return out
        if 0 <= maxsplit <= len(out):
            out.append(items[i:])
            return out
        cur = []
        while i < n and not isws(items[i]):
            cur.append(items[i])
            i += 1
        out.append(cur)


def _hexd(c, n):
    """the n low hexadecimal digits of a character"""
    return [digit_char(SymInt(z3.ZeroExt(1, z3.Extract(4 * i + 3, 4 * i, z3.ZeroExt(3, c))), 0, 15)
                       if not isinstance(c, int) else (c >> (4 * i)) & 15) for i in range(n - 1, -1, -1)]


def repr_chars(cs, wide, esc=None):
    """the characters of repr() of a text (wide) or of bytes given as characters"""
    q = 39
    if any(dec(ch_eq(c, 39)) for c in cs) and not any(dec(ch_eq(c, 34)) for c in cs):
        q = 34
    out = [q]
    for c in cs:
        for v, e in ((esc or q, esc or q), (92, 92), (9, 116), (10, 110), (13, 114)):
            if dec(ch_eq(c, v)):
                out.extend([92, e])
                break
        else:
            if dec(ch_in(c, 32, 126)):
                out.append(c)
            elif dec(ch_in(c, 0, 127)) or not wide:
                out.extend([92, 120] + _hexd(c, 2))
            elif dec(z3.simplify(ch_set(c, char_class('isprintable')))):
                out.append(c)
            elif dec(ch_in(c, 0, 255)):
                out.extend([92, 120] + _hexd(c, 2))
            elif dec(ch_in(c, 0, 0xffff)):
                out.extend([92, 117] + _hexd(c, 4))
            else:
                out.extend([92, 85] + _hexd(c, 8))
    out.append(q)
    return out


def sym_repr(x):
    """repr() of a text or of bytes, rendered when something looks at it"""
    if isinstance(x, SymStr):
        return LazyStr(lambda: mk_str(repr_chars(x.chars(), True)))
    its = list(x.items)

    def render():
        cs = [v if isinstance(v, int) else z3.ZeroExt(CW - 8, v) for v in its]
        out = [98] + repr_chars(cs, False, 39 if x.mut else None)
        if x.mut:
            out = [ord(ch) for ch in 'bytearray('] + out + [41]
        return mk_str(out)
    return LazyStr(render)


def _is_strlike(x):
    return isinstance(x, (str, SymStr))


class SymStr(Sym):
    __slots__ = ('items',)
    pytype = str

    def __init__(self, items):
        self.items = items

    # representation
    def chars(self):
        if any(isinstance(i, NumAtom) for i in self.items):
            out = []
            for i in self.items:
                if isinstance(i, NumAtom):
                    out.extend(i.chars())
                else:
                    out.append(i)
            self.items = out
        return self.items

    def min_len(self):
        return sum(i.minlen() if isinstance(i, NumAtom) else 1 for i in self.items)

    def max_len(self):
        return sum(i.maxlen() if isinstance(i, NumAtom) else 1 for i in self.items)

    def has_atoms(self):
        return any(isinstance(i, NumAtom) for i in self.items)

    def __len__(self):
        if self.min_len() == self.max_len():
            return self.min_len()
        return len(self.chars())

    def truth(self):
        return self.min_len() > 0 or len(self.chars()) > 0

    def __bool__(self):
        return self.truth()

    def __iter__(self):
        return iter([mk_str([c]) for c in self.chars()])

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = conc_slice(k, len(self))
            return mk_str(self.chars()[k])
        if isinstance(k, SymInt):
            k = concretize_index(k)
        return mk_str([self.chars()[k]])

    def __add__(self, o):
        if not _is_strlike(o):
            return NotImplemented
        return mk_str(list(self.items) + items_of(o))

    def __radd__(self, o):
        if not _is_strlike(o):
            return NotImplemented
        return mk_str(items_of(o) + list(self.items))

    def __mul__(self, n):
        return mk_str(list(self.items) * repeat_count(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import models
        return models.str_mod(self, args)

    # comparison
    def eq_expr(self, o):
        """z3 Bool (or Python bool) for self == o"""
        oi = items_of(o)
        if isinstance(o, str):
            n = len(o)
            if n < self.min_len() or n > self.max_len():
                return False
        else:
            if o.max_len() < self.min_len() or o.min_len() > self.max_len():
                return False
        si = self.items
        if any(isinstance(i, NumAtom) for i in si) or any(isinstance(i, NumAtom) for i in oi):
            # same shape: compare the numbers
            if len(si) == len(oi) and all(
                    (isinstance(a, NumAtom) and isinstance(b, NumAtom) and a.base == b.base and
                     a.pad == b.pad and a.upper == b.upper)
                    or (not isinstance(a, NumAtom) and not isinstance(b, NumAtom))
                    for a, b in zip(si, oi)) and _atoms_separated(si) and _atoms_separated(oi):
                return sym_and(*[(a.v == b.v) if isinstance(a, NumAtom) else mk_bool(ch_eq(a, b))
                                 for a, b in zip(si, oi)])
            if len(si) == 1 and isinstance(o, str):
                a = si[0]
                try:
                    v = int(o, a.base)
                except ValueError:
                    return False
                ren = format(v, 'x' if a.base == 16 else 'd').zfill(a.pad)
                if a.upper:
                    ren = ren.upper()
                if v < 0 or ren != o:
                    return False
                return a.v == v
            if isinstance(o, SymStr) and len(oi) == 1 and not self.has_atoms():
                pass
            si = self.chars()
            oi = chars_of(o)
        if len(si) != len(oi):
            return False
        if not si:
            return True
        return mk_bool(z3.simplify(z3.And(*[ch_eq(a, b) for a, b in zip(si, oi)])))

    def __eq__(self, o):
        if not _is_strlike(o):
            return False
        return self.eq_expr(o)

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def _lt(self, o, strict):
        a, b = self.chars(), chars_of(o)
        # lexicographic
        e = core.TRUE if (len(a) < len(b) or (len(a) == len(b) and not strict)) else core.FALSE
        for x, y in reversed(list(zip(a, b))):
            x, y = ch_e(x), ch_e(y)
            e = z3.Or(z3.ULT(x, y), z3.And(x == y, e))
        return mk_bool(z3.simplify(e))

    def __lt__(self, o):
        if not _is_strlike(o):
            return NotImplemented
        return self._lt(o, True)

    def __le__(self, o):
        if not _is_strlike(o):
            return NotImplemented
        return self._lt(o, False)

    def __gt__(self, o):
        if not _is_strlike(o):
            return NotImplemented
        return sym_not(self._lt(o, False))

    def __ge__(self, o):
        if not _is_strlike(o):
            return NotImplemented
        return sym_not(self._lt(o, True))

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        """Pick one concrete value (marks the path incomplete)."""
        c = C()
        out = []
        cs = self.chars()
        spread([x for x in cs if not isinstance(x, int)], ch_in)
        for x in cs:
            if not isinstance(x, int):
                x = c.choose_value(x).as_long()
            out.append(chr(x))
        c.incomplete.append('concretised string')
        return ''.join(out)

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return '<SymStr>'

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        if not _is_strlike(o):
            raise TypeError("'in <string>' requires string as left operand")
        if isinstance(o, str) and len(o) == 1 and self.has_atoms() and not any(
                isinstance(i, NumAtom) and i.may_contain(ord(o)) for i in self.items):
            cs = [i for i in self.items if not isinstance(i, NumAtom)]
            return sym_or(*[mk_bool(ch_eq(c, ord(o))) for c in cs]) if cs else False
        a, b = self.chars(), chars_of(o)
        if not b:
            return True
        return sym_or(*[sym_and(*[mk_bool(ch_eq(x, y)) for x, y in zip(a[i:i + len(b)], b)])
                        for i in range(len(a) - len(b) + 1)]) if len(a) >= len(b) else False

    # methods
    def _case(self, rngs, delta, meth):
        out = []
        for it in self.items:
            if isinstance(it, NumAtom):
                if it.base == 10 or (meth != 'upper' and not it.upper) or (meth == 'upper' and it.upper):
                    out.append(it)
                else:
                    out.append(NumAtom(it.v, it.base, it.pad, meth == 'upper'))
            elif isinstance(it, int):
                out.extend(map(ord, getattr(chr(it), meth)()))
            else:
                if dec(ch_in(it, 0, 127)):
                    a, b = rngs
                    out.append(z3.simplify(z3.If(ch_in(it, a, b), it + z3.BitVecVal(delta, CW), it)))
                else:
                    # non-ASCII case mapping is not encoded: pick a value
                    c = C()
                    v = c.choose_value(it).as_long()
                    c.incomplete.append('non-ASCII case mapping')
                    out.extend(map(ord, getattr(chr(v), meth)()))
        return mk_str(out)

    def lower(self):
        return self._case((65, 90), 32, 'lower')

    def casefold(self):
        return self._case((65, 90), 32, 'casefold')

    def upper(self):
        return self._case((97, 122), -32 & ((1 << CW) - 1), 'upper')

    def startswith(self, p, start=0, end=None):
        if start or end is not None:
            st, en, _ = slice(start, end).indices(len(self.chars()))
            if start > len(self.chars()) or st > en:
                return False
            t = self[st:en]
            if isinstance(t, SymStr):
                return t.startswith(p)
            return sym_or(*[SymStr(items_of(t)).startswith(q) for q in (p if isinstance(p, tuple) else (p,))])
        if isinstance(p, tuple):
            return sym_or(*[self.startswith(q) for q in p])
        n = len(p)
        its = self.items
        if len(its) >= n and not any(isinstance(i, NumAtom) for i in its[:n]):
            a = its[:n]
        else:
            a = self.chars()[:n]
        if len(a) < n:
            return False
        if n == 0:
            return True
        return mk_bool(z3.simplify(z3.And(*[ch_eq(x, y) for x, y in zip(a, chars_of(p))])))

    def endswith(self, p, start=0, end=None):
        if start or end is not None:
            st, en, _ = slice(start, end).indices(len(self.chars()))
            if start > len(self.chars()) or st > en:
                return False
            t = self[st:en]
            if isinstance(t, SymStr):
                return t.endswith(p)
            return sym_or(*[SymStr(items_of(t)).endswith(q) for q in (p if isinstance(p, tuple) else (p,))])
        if isinstance(p, tuple):
            return sym_or(*[self.endswith(q) for q in p])
        n = len(p)
        if n == 0:
            return True
        a = self.chars()[-n:]
        if len(a) < n:
            return False
        return mk_bool(z3.simplify(z3.And(*[ch_eq(x, y) for x, y in zip(a, chars_of(p))])))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def _strip(self, cs, left, right):
        if cs is None:
            test = lambda c: ch_set(c, _WS)
            safe_atoms = True
        else:
            cl = chars_of(cs)
            test = lambda c: z3.Or(*[ch_eq(c, x) for x in cl]) if cl else core.FALSE
            safe_atoms = False
        its = list(self.items) if safe_atoms else list(self.chars())
        if left:
            while its and not isinstance(its[0], NumAtom) and dec(z3.simplify(test(its[0]))):
                its.pop(0)
        if right:
            while its and not isinstance(its[-1], NumAtom) and dec(z3.simplify(test(its[-1]))):
                its.pop()
        return mk_str(its)

    def strip(self, cs=None):
        return self._strip(cs, True, True)

    def lstrip(self, cs=None):
        return self._strip(cs, True, False)

    def rstrip(self, cs=None):
        return self._strip(cs, False, True)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [mk_str(p) for p in ws_split(self.chars(), maxsplit, lambda it: dec(z3.simplify(ch_set(it, _WS))))]
        sc = chars_of(sep)
        if not sc:
            raise ValueError('empty separator')
        if len(sc) == 1:
            its = self.items
            if self.has_atoms() and any(isinstance(i, NumAtom) and (not isinstance(sc[0], int) or
                                                                    i.may_contain(sc[0])) for i in its):
                its = self.chars()
            out, cur = [], []
            for it in its:
                if (maxsplit < 0 or len(out) < maxsplit) and not isinstance(it, NumAtom) \
                        and dec(ch_eq(it, sc[0])):
                    out.append(mk_str(cur))
                    cur = []
                else:
                    cur.append(it)
            out.append(mk_str(cur))
            return out
        out, cur, i = [], [], 0
        its = self.chars()
        n = len(sc)
        while i < len(its):
            if (maxsplit < 0 or len(out) < maxsplit) and i + n <= len(its) and \
                    dec(z3.simplify(z3.And(*[ch_eq(a, b) for a, b in zip(its[i:i + n], sc)]))):
                out.append(mk_str(cur))
                cur = []
                i += n
            else:
                cur.append(its[i])
                i += 1
        out.append(mk_str(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        rev = SymStr(list(reversed(self.chars())))
        rsep = None if sep is None else mk_str(list(reversed(chars_of(sep))))
        parts = rev.split(rsep, maxsplit)
        return [mk_str(list(reversed(chars_of(q)))) for q in reversed(parts)]

    def partition(self, sep):
        p = self.split(sep, 1)
        if len(p) == 1:
            return (self, '', '')
        return (p[0], sep, p[1])

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        if len(p) == 1:
            return ('', '', self)
        return (p[0], sep, p[1])

    def splitlines(self, keepends=False):
        out, cur = [], []
        cs = self.chars()
        i = 0
        while i < len(cs):
            if not dec(z3.simplify(ch_set(cs[i], _NL))):
                cur.append(cs[i])
                i += 1
                continue
            end = [cs[i]]
            if i + 1 < len(cs) and dec(z3.simplify(z3.And(ch_eq(cs[i], 13), ch_eq(cs[i + 1], 10)))):
                end.append(cs[i + 1])
            i += len(end)
            out.append(mk_str(cur + end if keepends else cur))
            cur = []
        if cur:
            out.append(mk_str(cur))
        return out

    def replace(self, a, b, count=-1):
        if isinstance(a, str) and a == '':
            cs = [mk_str([c]) for c in self.chars()]
            n = len(cs) + 1 if count < 0 else min(count, len(cs) + 1)
            out = ''
            for i, c in enumerate(cs):
                out = out + (b if i < n else '') + c
            return out + (b if n > len(cs) else '')
        return sym_join(b, self.split(a, count))

    def title(self):
        return self._words(True)

    def _words(self, title):
        out, inword = [], False
        for c in self.chars():
            ch = mk_str([c])
            out.append(ch.lower() if inword else ch.upper())
            if title:
                inword = dec(z3.simplify(ch_set(c, char_class('isalpha'))))
            else:
                inword = True
        return sym_join('', out)

    def capitalize(self):
        return self._words(False)

    def swapcase(self):
        out = []
        for c in self.chars():
            ch = mk_str([c])
            up = ch.isupper() if isinstance(ch, SymStr) else ch.isupper()
            out.append(ch.lower() if truth(up) else ch.upper())
        return sym_join('', out)

    def translate(self, table):
        out = []
        for c in self.chars():
            rest = True
            if isinstance(c, int):
                q = chr(c).translate(table)
                out.append(q)
                continue
            if not isinstance(table, dict):
                raise Unsupported('translate')
            for k in table:
                if isinstance(k, int) and dec(ch_eq(c, k)):
                    out.append(chr(k).translate(table))
                    rest = False
                    break
            if rest:
                out.append(mk_str([c]))
        return sym_join('', out)

    def expandtabs(self, tabsize=8):
        out, col = [], 0
        for c in self.chars():
            if dec(ch_eq(c, 9)):
                n = tabsize - col % tabsize if tabsize > 0 else 0
                out.extend([32] * n)
                col += n
            else:
                out.append(c)
                col = 0 if dec(z3.Or(ch_eq(c, 10), ch_eq(c, 13))) else col + 1
        return mk_str(out)

    def center(self, w, f=' '):
        cs = list(self.chars())
        pad = max(0, w - len(cs))
        left = pad // 2 + (pad & w & 1)
        return mk_str([ord(f)] * left + cs + [ord(f)] * (pad - left))

    def join(self, xs):
        return sym_join(self, list(xs))

    def find(self, sub, start=0, end=None):
        if end is not None or start < 0:
            st, en, _ = slice(start, end).indices(len(self.chars()))
            r = -1 if st > en or start > len(self.chars()) else SymStr(self.chars()[st:en]).find(sub)
            return r + st if r >= 0 else -1
        a, b = self.chars(), chars_of(sub)
        for i in range(start, len(a) - len(b) + 1):
            if dec(z3.simplify(z3.And(*[ch_eq(x, y) for x, y in zip(a[i:i + len(b)], b)])) if b else core.TRUE):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        if start or end is not None:
            st, en, _ = slice(start, end).indices(len(self.chars()))
            r = -1 if st > en or start > len(self.chars()) else SymStr(self.chars()[st:en]).rfind(sub)
            return r + st if r >= 0 else -1
        a, b = self.chars(), chars_of(sub)
        for i in range(len(a) - len(b), -1, -1):
            if dec(z3.simplify(z3.And(*[ch_eq(x, y) for x, y in zip(a[i:i + len(b)], b)])) if b else core.TRUE):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=0, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=0, end=None):
        if start or end is not None:
            st, en, _ = slice(start, end).indices(len(self.chars()))
            if start > len(self.chars()) or st > en:
                return 0
            return SymStr(self.chars()[st:en]).count(sub)
        if len(sub) == 0:
            return len(self.chars()) + 1
        return len(self.split(sub)) - 1

    def zfill(self, w):
        if len(self.items) == 1 and isinstance(self.items[0], NumAtom):
            a = self.items[0]
            return mk_str([NumAtom(a.v, a.base, max(a.pad, w), a.upper)])
        cs = list(self.chars())
        if len(cs) >= w:
            return mk_str(cs)
        if cs and not isinstance(cs[0], int):
            if dec(z3.Or(ch_eq(cs[0], 43), ch_eq(cs[0], 45))):
                return mk_str([cs[0]] + [48] * (w - len(cs)) + cs[1:])
        elif cs and cs[0] in (43, 45):
            return mk_str([cs[0]] + [48] * (w - len(cs)) + cs[1:])
        return mk_str([48] * (w - len(cs)) + cs)

    def rjust(self, w, f=' '):
        if f == '0' and len(self.items) == 1 and isinstance(self.items[0], NumAtom):
            return self.zfill(w)
        cs = self.chars()
        return mk_str([ord(f)] * max(0, w - len(cs)) + list(cs))

    def ljust(self, w, f=' '):
        cs = self.chars()
        return mk_str(list(cs) + [ord(f)] * max(0, w - len(cs)))

    def _all(self, ranges):
        cs = self.chars()
        if not cs:
            return False
        return mk_bool(z3.simplify(z3.And(*[ch_set(c, ranges) for c in cs])))

    def isspace(self):
        return self._all(_WS)

    def isascii(self):
        cs = self.chars()
        return mk_bool(z3.simplify(z3.And(*[ch_in(c, 0, 127) for c in cs]))) if cs else True

    def isdigit(self):
        return self._all(char_class('isdigit'))

    def isdecimal(self):
        return self._all(char_class('isdecimal'))

    def isnumeric(self):
        return self._all(char_class('isnumeric'))

    def isalpha(self):
        return self._all(char_class('isalpha'))

    def isalnum(self):
        return self._all(char_class('isalnum'))

    def isprintable(self):
        return self._all(char_class('isprintable')) if self.chars() else True

    def islower(self):
        cs = self.chars()
        return sym_and(sym_not(mk_bool(z3.Or(*[ch_set(c, char_class('isupper')) for c in cs]))),
                       mk_bool(z3.Or(*[ch_set(c, char_class('islower')) for c in cs])))

    def isupper(self):
        cs = self.chars()
        return sym_and(sym_not(mk_bool(z3.Or(*[ch_set(c, char_class('islower')) for c in cs]))),
                       mk_bool(z3.Or(*[ch_set(c, char_class('isupper')) for c in cs])))

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('utf-8', 'utf8'):
            return utf8_encode(self, errors)
        if enc == 'utf-8-sig':
            return b'\xef\xbb\xbf' + utf8_encode(self, errors)
        if enc in ('ascii', 'latin-1', 'latin1', 'iso-8859-1'):
            lim = 127 if enc == 'ascii' else 255
            out = []
            for i, x in enumerate(self.chars()):
                if not dec(ch_in(x, 0, lim)):
                    if errors == 'ignore':
                        continue
                    if errors == 'replace':
                        out.append(63)
                        continue
                    raise UnicodeEncodeError(encoding, '?', 0, 1, 'ordinal not in range')
                out.append(x if isinstance(x, int) else z3.Extract(7, 0, x))
            return mk_bytes(out)
        raise Unsupported('encode ' + encoding)

    def format(self, *a, **k):
        from . import models
        return models.str_format(self, a, k)

    def __getattr__(self, n):
        if n.startswith('__') or not hasattr('', n):
            raise AttributeError(n)
        return getattr(self.concrete(), n)


def _atoms_separated(items):
    """Number atoms delimited so that equal strings have equal numbers: no two adjacent atoms and the
    neighbouring characters are concrete non-digits."""
    for i, it in enumerate(items):
        if isinstance(it, NumAtom):
            for j in (i - 1, i + 1):
                if 0 <= j < len(items):
                    n = items[j]
                    if isinstance(n, NumAtom):
                        return False
                    if not isinstance(n, int) or it.may_contain(n):
                        return False
    return True


def conc_slice(k, n):
    def cv(v, default):
        if isinstance(v, SymInt):
            # clip to [-n-1, n+1] then enumerate
            if v > n:
                return n
            if v < -n:
                return -n
            return concretize_index(SymInt(*_narrow(v, -n, n)), limit=4096)
        return v
    return slice(cv(k.start, 0), cv(k.stop, n), cv(k.step, 1))


def _narrow(v, lo, hi):
    lo, hi = max(lo, v.lo), min(hi, v.hi)
    w = nbits(lo, hi)
    e = v.e
    if e.size() > w:
        e = z3.Extract(w - 1, 0, e)
    return e, lo, hi


def sym_join(sep, xs):
    if isinstance(sep, (bytes, bytearray, SymBytes)):
        out = []
        si = bitems_of(sep)
        for i, x in enumerate(xs):
            if i:
                out.extend(si)
            if not isinstance(x, (bytes, bytearray, SymBytes)):
                raise TypeError('sequence item %d: expected a bytes-like object' % i)
            out.extend(bitems_of(x))
        return mk_bytes(out)
    out = []
    si = items_of(sep)
    for i, x in enumerate(xs):
        if i:
            out.extend(si)
        if not _is_strlike(x):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__))
        out.extend(items_of(x))
    return mk_str(out)


# ------------------------------------------------------------------------------------- bytes
def be(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def b_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return core.TRUE if a == b else core.FALSE
    return be(a) == be(b)


def mk_bytes(items):
    out = []
    symbolic = False
    for it in items:
        if not isinstance(it, int):
            if z3.is_bv_value(it):
                it = it.as_long()
            else:
                symbolic = True
        out.append(it)
    if not symbolic:
        return bytes(out)
    return SymBytes(out)


def bitems_of(b):
    if isinstance(b, SymBytes):
        return list(b.items)
    return list(b)


def byte_int(x):
    if isinstance(x, int):
        return x
    return SymInt(z3.ZeroExt(1, x), 0, 255)


class LazyStr(SymStr):
    """A text without an encoding (a float, bytes): rendered, with one value picked, only when something looks at it.
    Messages of exceptions and log lines are mostly not looked at."""
    __slots__ = ('thunk', 'it')

    def __init__(self, thunk):
        self.thunk = thunk
        self.it = None

    @property
    def items(self):
        if self.it is None:
            self.it = items_of(self.thunk())
        return self.it

    @items.setter
    def items(self, v):
        self.it = v


class SymBytes(Sym):
    __slots__ = ('items',)
    pytype = bytes
    mut = False

    def __init__(self, items):
        self.items = items

    def _mk(self, items):
        return mk_bytes(items)

    def __len__(self):
        return len(self.items)

    def truth(self):
        return len(self.items) > 0

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        return iter([byte_int(x) for x in self.items])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._mk(self.items[conc_slice(k, len(self.items))])
        if isinstance(k, SymInt):
            k = concretize_index(k)
        return byte_int(self.items[k])

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return NotImplemented
        return self._mk(list(self.items) + bitems_of(o))

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return mk_bytes(list(o) + list(self.items))

    def __mul__(self, n):
        return self._mk(list(self.items) * repeat_count(n))
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return False
        b = bitems_of(o)
        if len(b) != len(self.items):
            return False
        if not b:
            return True
        return mk_bool(z3.simplify(z3.And(*[b_eq(x, y) for x, y in zip(self.items, b)])))

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def concrete(self):
        c = C()
        out = []
        spread([x for x in self.items if not isinstance(x, int)], ch8_in)
        for x in self.items:
            if not isinstance(x, int):
                x = c.choose_value(x).as_long()
            out.append(x)
        c.incomplete.append('concretised bytes')
        return bytes(out)

    def __hash__(self):
        return hash(self.concrete())

    def __bytes__(self):
        return self.concrete()

    def __repr__(self):
        return '<SymBytes>'

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('utf-8', 'utf8'):
            return utf8_decode(self.items, errors)
        if enc == 'utf-8-sig':
            its = list(self.items)
            if len(its) >= 3 and dec(z3.And(ch8_in(its[0], 0xEF, 0xEF), ch8_in(its[1], 0xBB, 0xBB), ch8_in(its[2], 0xBF, 0xBF))):
                its = its[3:]
            return utf8_decode(its, errors)
        if enc in ('latin-1', 'latin1', 'iso-8859-1'):
            return mk_str([x if isinstance(x, int) else z3.ZeroExt(CW - 8, x) for x in self.items])
        if enc == 'ascii':
            for x in self.items:
                if not dec(ch8_in(x, 0, 127)):
                    raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range(128)')
            return mk_str([x if isinstance(x, int) else z3.ZeroExt(CW - 8, x) for x in self.items])
        raise Unsupported('decode ' + encoding)

    # methods by way of the text with the same code points
    def _view(self):
        return SymStr([x if isinstance(x, int) else z3.ZeroExt(CW - 8, x) for x in self.items])

    def _back(self, t):
        if isinstance(t, (tuple, list)):
            return type(t)(self._back(q) for q in t)
        return self._mk([x if isinstance(x, int) else z3.simplify(z3.Extract(7, 0, x)) for x in chars_of(t)])

    @staticmethod
    def _arg(o):
        if isinstance(o, SymBytes):
            return o._view()
        if isinstance(o, (int, SymInt)) and not isinstance(o, bool):
            return mk_str([o if isinstance(o, int) else z3.Extract(CW - 1, 0, sext(o.e, max(CW, o.e.size())))])
        if not isinstance(o, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required, not '%s'" % type(o).__name__)
        return bytes(o).decode('latin-1')

    def startswith(self, p, *a):
        return self._view().startswith(tuple(map(self._arg, p)) if isinstance(p, tuple) else self._arg(p), *a)

    def endswith(self, p, *a):
        return self._view().endswith(tuple(map(self._arg, p)) if isinstance(p, tuple) else self._arg(p), *a)

    def find(self, s, *a):
        return self._view().find(self._arg(s), *a)

    def rfind(self, s, *a):
        return self._view().rfind(self._arg(s), *a)

    def index(self, s, *a):
        return self._view().index(self._arg(s), *a)

    def rindex(self, s, *a):
        return self._view().rindex(self._arg(s), *a)

    def count(self, s, *a):
        return self._view().count(self._arg(s), *a)

    def _strip8(self, cs, left, right):
        v = self._view()
        ws = bytes([9, 10, 11, 12, 13, 32]).decode() if cs is None else self._arg(cs)
        return self._back(v._strip(ws, left, right))

    def strip(self, cs=None):
        return self._strip8(cs, True, True)

    def lstrip(self, cs=None):
        return self._strip8(cs, True, False)

    def rstrip(self, cs=None):
        return self._strip8(cs, False, True)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [self._back(mk_str(p)) for p in
                    ws_split(self._view().items, maxsplit, lambda it: dec(z3.simplify(ch_set(it, _WS8))))]
        return self._back(self._view().split(self._arg(sep), maxsplit))

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None and maxsplit < 0:
            return self.split()
        if sep is None:
            parts = ws_split(list(reversed(self._view().items)), maxsplit,
                             lambda it: dec(z3.simplify(ch_set(it, _WS8))))
            return [self._back(mk_str(list(reversed(p)))) for p in reversed(parts)]
        return self._back(self._view().rsplit(self._arg(sep), maxsplit))

    def partition(self, sep):
        return self._back(self._view().partition(self._arg(sep)))

    def rpartition(self, sep):
        return self._back(self._view().rpartition(self._arg(sep)))

    def splitlines(self, keepends=False):
        raise Unsupported('bytes.splitlines')

    def replace(self, a, b, count=-1):
        return self._back(self._view().replace(self._arg(a), self._arg(b), count))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def _case8(self, a, b, d):
        return self._mk([(x + d if a <= x <= b else x) if isinstance(x, int) else
                         z3.simplify(z3.If(ch8_in(x, a, b), x + z3.BitVecVal(d & 255, 8), x)) for x in self.items])

    def lower(self):
        return self._case8(65, 90, 32)

    def upper(self):
        return self._case8(97, 122, -32)

    def zfill(self, w):
        return self._back(self._view().zfill(w))

    def rjust(self, w, f=b' '):
        return self._back(self._view().rjust(w, self._arg(f)))

    def ljust(self, w, f=b' '):
        return self._back(self._view().ljust(w, self._arg(f)))

    def center(self, w, f=b' '):
        return self._back(self._view().center(w, self._arg(f)))

    def isdigit(self):
        return self._view()._all([(48, 57)])

    def isalpha(self):
        return self._view()._all([(65, 90), (97, 122)])

    def isalnum(self):
        return self._view()._all([(48, 57), (65, 90), (97, 122)])

    def isspace(self):
        return self._view()._all(_WS8)

    def isascii(self):
        return self._view().isascii()

    def join(self, xs):
        return sym_join(self, list(xs))

    def hex(self):
        out = []
        for x in self.items:
            v = byte_int(x)
            out.append(digit_char(v >> 4))
            out.append(digit_char(v & 15))
        return mk_str(out)

    def __contains__(self, o):
        if isinstance(o, (int, SymInt)):
            return bool(sym_or(*[byte_int(x) == o for x in self.items]))
        return bool(self._view().contains(self._arg(o)))

    def __getattr__(self, n):
        if n.startswith('__') or not hasattr(b'', n):
            raise AttributeError(n)
        return getattr(self.concrete(), n)


class SymByteArray(SymBytes):
    __slots__ = ()
    pytype = bytearray
    mut = True

    def _mk(self, items):
        return SymByteArray(items)

    def __iadd__(self, o):
        self.items.extend(bitems_of(o))
        return self

    def extend(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            self.items.extend(bitems_of(o))
        else:
            for x in o:
                self.append(x)

    def append(self, x):
        self.items.append(int_bytes(x, 1, True).items[0] if isinstance(x, SymInt) else x)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.items[conc_slice(k, len(self.items))] = bitems_of(v)
        else:
            self.items[concretize_index(k)] = v if isinstance(v, int) else z3.Extract(7, 0, sext(v.e, 9))

    def __delitem__(self, k):
        if isinstance(k, slice):
            k = conc_slice(k, len(self.items))
        del self.items[k]

    def clear(self):
        del self.items[:]

    def copy(self):
        return SymByteArray(list(self.items))

    def __getattr__(self, n):
        raise AttributeError(n)
    __hash__ = None


def ch8_in(x, lo, hi):
    if isinstance(x, int):
        return core.TRUE if lo <= x <= hi else core.FALSE
    return z3.And(z3.UGE(x, z3.BitVecVal(lo, 8)), z3.ULE(x, z3.BitVecVal(hi, 8)))


def utf8_encode(s, errors='strict'):
    out = []
    for x in chars_of(s):
        if isinstance(x, int):
            try:
                out.extend(chr(x).encode('utf-8', errors))
            except UnicodeEncodeError:
                raise
            continue
        if dec(ch_in(x, 0, 0x7F)):
            out.append(z3.Extract(7, 0, x))
        elif dec(ch_in(x, 0, 0x7FF)):
            out.append(z3.Concat(z3.BitVecVal(0b110, 3), z3.Extract(10, 6, x)))
            out.append(z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(5, 0, x)))
        elif dec(ch_in(x, 0, 0xFFFF)):
            if dec(ch_in(x, 0xD800, 0xDFFF)):
                if errors == 'ignore':
                    continue
                if errors == 'replace':
                    out.append(63)
                    continue
                if errors == 'surrogateescape' and dec(ch_in(x, 0xDC80, 0xDCFF)):
                    out.append(z3.Extract(7, 0, x))
                    continue
                if errors != 'surrogatepass':
                    raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
            out.append(z3.Concat(z3.BitVecVal(0b1110, 4), z3.Extract(15, 12, x)))
            out.append(z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(11, 6, x)))
            out.append(z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(5, 0, x)))
        else:
            out.append(z3.Concat(z3.BitVecVal(0b11110, 5), z3.Extract(20, 18, x)))
            out.append(z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(17, 12, x)))
            out.append(z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(11, 6, x)))
            out.append(z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(5, 0, x)))
    return mk_bytes([z3.simplify(x) if not isinstance(x, int) else x for x in out])


def utf8_decode(items, errors='strict'):
    out = []
    i, n = 0, len(items)

    def bad(k):
        if errors in ('strict', 'surrogatepass'):
            raise UnicodeDecodeError('utf-8', b'?', 0, 1, 'invalid byte')
        if errors == 'replace':
            out.append(0xFFFD)
        elif errors == 'surrogateescape':
            for x in items[i:i + k]:
                out.append(0xDC00 + x if isinstance(x, int) else z3.simplify(z3.BitVecVal(0xDC00, CW) + z3.ZeroExt(CW - 8, x)))
        elif errors != 'ignore':
            raise Unsupported('decode errors=' + errors)
        return k

    def low(x, k):
        return z3.ZeroExt(CW - k, z3.Extract(k - 1, 0, be(x)))

    while i < n:
        x = items[i]
        if dec(ch8_in(x, 0, 0x7F)):
            out.append(x if isinstance(x, int) else z3.ZeroExt(CW - 8, x))
            i += 1
            continue
        if dec(z3.Or(ch8_in(x, 0x80, 0xC1), ch8_in(x, 0xF5, 0xFF))):
            i += bad(1)
            continue
        if dec(ch8_in(x, 0xC2, 0xDF)):
            need, rng = 1, [(0x80, 0xBF)]
        elif dec(ch8_in(x, 0xE0, 0xEF)):
            need = 2
            if dec(ch8_in(x, 0xE0, 0xE0)):
                rng = [(0xA0, 0xBF), (0x80, 0xBF)]
            elif dec(ch8_in(x, 0xED, 0xED)):
                rng = [(0x80, 0xBF if errors == 'surrogatepass' else 0x9F), (0x80, 0xBF)]
            else:
                rng = [(0x80, 0xBF), (0x80, 0xBF)]
        else:
            need = 3
            if dec(ch8_in(x, 0xF0, 0xF0)):
                rng = [(0x90, 0xBF), (0x80, 0xBF), (0x80, 0xBF)]
            elif dec(ch8_in(x, 0xF4, 0xF4)):
                rng = [(0x80, 0x8F), (0x80, 0xBF), (0x80, 0xBF)]
            else:
                rng = [(0x80, 0xBF), (0x80, 0xBF), (0x80, 0xBF)]
        ok = 0
        for j in range(need):
            if i + 1 + j < n and dec(ch8_in(items[i + 1 + j], *rng[j])):
                ok += 1
            else:
                break
        if ok < need:
            i += bad(1 + ok)
            continue
        if need == 1:
            v = low(x, 5) << 6 | low(items[i + 1], 6)
        elif need == 2:
            v = low(x, 4) << 12 | low(items[i + 1], 6) << 6 | low(items[i + 2], 6)
        else:
            v = low(x, 3) << 18 | low(items[i + 1], 6) << 12 | low(items[i + 2], 6) << 6 | low(items[i + 3], 6)
        out.append(z3.simplify(v))
        i += 1 + need
    return mk_str(out)


# --------------------------------------------------------------------------------------- dict
_missing = object()


def _symkey(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, tuple):
        return any(_symkey(x) for x in k)
    return False


class XDict(dict):
    """dict that also accepts symbolic keys (insertion-ordered association list once one is used)."""
    __slots__ = ('_al', '__weakref__', '__dict__')

    def __init__(self, *a, **k):
        self._al = None
        if a or k:
            self.update(*a, **k)

    def _sym(self):
        if self._al is None:
            self._al = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)
        return self._al

    def _find(self, k):
        for p in self._al:
            q = p[0]
            if q is k:
                return p
            if _symkey(q) or _symkey(k):
                if q == k:
                    return p
            elif q == k and hash(q) == hash(k):
                return p
        return None

    def __getitem__(self, k):
        if self._al is None:
            if not _symkey(k):
                return dict.__getitem__(self, k)
            self._sym()
        p = self._find(k)
        if p is None:
            f = getattr(type(self), '__missing__', None)
            if f:
                return f(self, k)
            raise KeyError(k)
        return p[1]

    def __setitem__(self, k, v):
        if self._al is None:
            if not _symkey(k):
                return dict.__setitem__(self, k, v)
            self._sym()
        if not _symkey(k):
            hash(k)
        p = self._find(k)
        if p is None:
            self._al.append([k, v])
        else:
            p[1] = v

    def __delitem__(self, k):
        if self._al is None:
            if not _symkey(k):
                return dict.__delitem__(self, k)
            self._sym()
        p = self._find(k)
        if p is None:
            raise KeyError(k)
        self._al[:] = [q for q in self._al if q is not p]

    def __contains__(self, k):
        if self._al is None:
            if not _symkey(k):
                return dict.__contains__(self, k)
            self._sym()
        return self._find(k) is not None

    def get(self, k, d=None):
        if self._al is None:
            if not _symkey(k):
                return dict.get(self, k, d)
            self._sym()
        p = self._find(k)
        return d if p is None else p[1]

    def __len__(self):
        return dict.__len__(self) if self._al is None else len(self._al)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        if self._al is None:
            return dict.__iter__(self)
        return iter([p[0] for p in self._al])

    def __reversed__(self):
        return iter(list(reversed(list(self.__iter__()))))

    def keys(self):
        return dict.keys(self) if self._al is None else [p[0] for p in self._al]

    def values(self):
        return dict.values(self) if self._al is None else [p[1] for p in self._al]

    def items(self):
        return dict.items(self) if self._al is None else [(p[0], p[1]) for p in self._al]

    def pop(self, k, *d):
        if self._al is None:
            if not _symkey(k):
                return dict.pop(self, k, *d)
            self._sym()
        p = self._find(k)
        if p is None:
            if d:
                return d[0]
            raise KeyError(k)
        self._al[:] = [q for q in self._al if q is not p]
        return p[1]

    def popitem(self):
        if self._al is None:
            return dict.popitem(self)
        return tuple(self._al.pop())

    def setdefault(self, k, d=None):
        if self._al is None and not _symkey(k):
            return dict.setdefault(self, k, d)
        if k in self:
            return self[k]
        self[k] = d
        return d

    def update(self, *a, **k):
        if a:
            src = a[0]
            if hasattr(src, 'keys'):
                if isinstance(src, XDict):
                    for kk, vv in list(src.items()):
                        self[kk] = vv
                else:
                    for kk in src.keys():
                        self[kk] = src[kk]
            else:
                for kk, vv in src:
                    self[kk] = vv
        for kk, vv in k.items():
            self[kk] = vv

    def clear(self):
        dict.clear(self)
        self._al = None

    def copy(self):
        return XDict(self)

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if self._al is None and not (isinstance(o, XDict) and o._al is not None):
            return dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        o = o if isinstance(o, XDict) else XDict(o)
        for k, v in self.items():
            if k not in o:
                return False
            if not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        d = XDict(self)
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self
    __hash__ = None

    def __repr__(self):
        return dict.__repr__(self) if self._al is None else '<XDict sym>'

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = cls()
        for k in ks:
            d[k] = v
        return d


def pytype(x):
    if isinstance(x, Sym):
        return x.pytype
    if type(x) is XDict:
        return dict
    return type(x)

import numbers  # noqa: E402
numbers.Integral.register(SymInt)    # library code (tornado) asks whether a deadline is a number
numbers.Real.register(_SymFloat)
