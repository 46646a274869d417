"""The interface harnesses are written against, in its two implementations: SymEnv (values are solver
variables) and ConcEnv (values come from a witness; used to replay against the unmodified code)."""
import math
from . import stubs, sched


class EnvBase(object):
    symbolic = False

    def set_clock(self, fn):
        stubs.HOOK['time'] = fn

    def set_random(self, fn):
        stubs.HOOK['rand'] = fn

    def symbolic_random(self, real=False, floats=None):
        """Every random draw is an arbitrary value of its type."""
        def h(kind, *a):
            if kind == 'getrandbits':
                return self.int('rand_bits', 0, (1 << a[0]) - 1)
            if kind == 'random':
                if floats is not None:
                    return floats
                if real:
                    return self.real('rand', 0, 1, hi_open=True)
                return self.float('rand', 0.0, 0.9999999999999999)
            return self.int('rand_int', a[0], a[1])
        stubs.HOOK['rand'] = h

    def fail(self, label, msg=''):
        self.check(False, label, msg)

    def outcome(self, fn, *a, **k):
        """(value, exception)"""
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def pause(self, name):
        """a scheduling point of the harness"""
        if sched.CUR is not None:
            sched.CUR.point('user', None, name)

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def pick(self, name, seq):
        return seq[self.choose(name, len(seq))]


# ------------------------------------------------------------------------------------------------
class ConcEnv(EnvBase):
    """Concrete run.  `inputs` is the ordered list of (name, kind, value)."""

    def __init__(self, inputs):
        self.inputs = inputs
        self.pos = 0
        self.failures = []
        self.labels = {}
        self.observed = []
        self.diverged = 0
        self.assume_failed = False

    def _next(self, name, kind):
        if self.pos < len(self.inputs):
            n, k, v = self.inputs[self.pos]
            if n == name and k == kind:
                self.pos += 1
                return v
            # tolerate reordering: look ahead
            for j in range(self.pos, len(self.inputs)):
                n, k, v = self.inputs[j]
                if n == name and k == kind:
                    self.inputs[self.pos:j + 1] = [self.inputs[j]] + self.inputs[self.pos:j]
                    self.pos += 1
                    self.diverged += 1
                    return v
        self.diverged += 1
        return None

    def int(self, name, lo, hi):
        v = self._next(name, 'int')
        return lo if v is None else int(v)

    def bool(self, name):
        v = self._next(name, 'bool')
        return bool(v)

    def choose(self, name, n):
        v = self._next(name, 'choose')
        return 0 if v is None else min(int(v), n - 1)

    def float(self, name, lo=None, hi=None, nan=False, inf=False):
        v = self._next(name, 'float')
        if v is None:
            return lo if lo is not None else 0.0
        return float.fromhex(v) if v not in ('nan',) else float('nan')

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self._next(name, 'real')
        if v is None:
            return float(lo if lo is not None else 0.0)
        return float.fromhex(v)

    def str(self, name, n, chars=None, surrogates=False):
        v = self._next(name, 'str')
        if v is None:
            return 'a' * (n if isinstance(n, int) else n[0])
        return ''.join(chr(c) for c in v)

    def bytes(self, name, n):
        v = self._next(name, 'bytes')
        if v is None:
            return b'\0' * (n if isinstance(n, int) else n[0])
        return bytes.fromhex(v)

    def bytearray(self, b=b''):
        return bytearray(b)

    def json(self, v, isbytes=True):
        import json
        t = json.dumps(v)
        return t.encode('utf-8') if isbytes else t

    def assume(self, c):
        if not c:
            self.assume_failed = True
            raise AssumeFailed()

    def check(self, c, label, msg=''):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not c:
            self.failures.append((label, str(msg)))

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def observe(self, name, v):
        self.observed.append((name, norm(v)))

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def ite(self, c, a, b):
        return a if c else b

    def possible(self, c):
        return bool(c)

    def isnan(self, x):
        return isinstance(x, float) and math.isnan(x)

    def tol(self, eps):
        """slack granted to the float run where the symbolic run is over exact reals"""
        return eps

    def note_incomplete(self, why):
        pass

    schedule = None

    def threads(self, fns, bound=2):
        ch = sched.Recorded(self.schedule)
        self.sched = sched.Sched(ch)
        with sched.Monitor(self.sched, ch):
            ts = self.sched.run(fns)
        self.diverged += ch.diverged + len(ch.events) - ch.i
        return ts


class AssumeFailed(KeyboardInterrupt):
    pass


def norm(v):
    """JSON-able rendering for comparing observed values between engine and real code."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return 'i%d' % v
    if isinstance(v, float):
        return 'f' + ('nan' if math.isnan(v) else v.hex())
    if isinstance(v, str):
        return 's' + ascii(v)
    if isinstance(v, (bytes, bytearray)):
        return 'b' + bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return [[norm(a), norm(b)] for a, b in v.items()]
    if isinstance(v, BaseException):
        return 'e' + type(v).__name__
    return 'o' + type(v).__name__


# ------------------------------------------------------------------------------------------------
try:
    import z3
except ImportError:
    z3 = None

if z3 is not None:
    from . import core, values
    from .values import (SymInt, SymBool, SymFP, SymReal, SymStr, SymBytes, SymByteArray, XDict, mk_bool,
                         mk_str, mk_bytes, sym_and, sym_or, sym_not, truth, CW, F64, fpval, int_var, NumAtom)

    class SymEnv(EnvBase):
        symbolic = True

        def __init__(self, ctx):
            self.c = ctx

        def _rec(self, name, kind, payload):
            self.c.inputs.append((name, kind, payload))

        def int(self, name, lo, hi):
            v = int_var(name, lo, hi)
            self._rec(name, 'int', v)
            if isinstance(v, SymInt):
                n = v.e.size()
                top = min(hi, max(lo, 0) + 9)
                self.c.small.append(z3.And(v.e <= z3.BitVecVal(top, n), v.e >= z3.BitVecVal(min(top, max(lo, -9)), n)))
            return v

        def bool(self, name):
            e = z3.Bool(self.c.fresh(name))
            self._rec(name, 'bool', SymBool(e))
            return SymBool(e)

        def choose(self, name, n):
            """A symbolic selector in [0, n): the path forks on it."""
            if n <= 1:
                self._rec(name, 'choose', 0)
                return 0
            v = int_var(name, 0, n - 1)
            self._rec(name, 'choose', v)
            for k in range(n - 1):
                if self.c.decide(v.e == z3.BitVecVal(k, v.e.size())):
                    return k
            return n - 1

        def float(self, name, lo=None, hi=None, nan=False, inf=False):
            e = z3.FP(self.c.fresh(name), F64)
            if not nan:
                self.c.add(z3.Not(z3.fpIsNaN(e)))
            if not inf:
                self.c.add(z3.Not(z3.fpIsInf(e)))
            if lo is not None:
                b = z3.fpGEQ(e, fpval(lo))
                self.c.add(z3.Or(z3.fpIsNaN(e), b) if nan else b)
            if hi is not None:
                b = z3.fpLEQ(e, fpval(hi))
                self.c.add(z3.Or(z3.fpIsNaN(e), b) if nan else b)
            v = SymFP(e)
            self._rec(name, 'float', v)
            return v

        def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
            e = z3.Real(self.c.fresh(name))
            if lo is not None:
                l = values.as_real(lo)
                self.c.add(e > l if lo_open else e >= l)
            if hi is not None:
                h = values.as_real(hi)
                self.c.add(e < h if hi_open else e <= h)
            v = SymReal(e)
            self._rec(name, 'real', v)
            return v

        def str(self, name, n, chars=None, surrogates=False):
            """Symbolic text; n = length or (min, max); chars = list of code point ranges."""
            if not isinstance(n, int):
                lo, hi = n
                n = lo
                if hi > lo:
                    v = int_var(name + '_len', lo, hi)
                    k = lo
                    while k < hi and not self.c.decide(v.e == z3.BitVecVal(k, v.e.size())):
                        k += 1
                    n = k
            out = []
            for i in range(n):
                e = z3.BitVec(self.c.fresh('%s_%d' % (name, i)), CW)
                if chars is not None:
                    self.c.add(values.ch_set(e, chars))
                elif surrogates:
                    self.c.add(values.ch_in(e, 0, 0x10FFFF))
                else:
                    self.c.add(values.ch_set(e, [(0, 0xD7FF), (0xE000, 0x10FFFF)]))
                out.append(e)
            s = SymStr(out) if out else ''
            self._rec(name, 'str', list(out))
            return s

        def bytes(self, name, n):
            if not isinstance(n, int):
                lo, hi = n
                v = int_var(name + '_len', lo, hi)
                k = lo
                while k < hi and not self.c.decide(v.e == z3.BitVecVal(k, v.e.size())):
                    k += 1
                n = k
            out = [z3.BitVec(self.c.fresh('%s_%d' % (name, i)), 8) for i in range(n)]
            self._rec(name, 'bytes', list(out))
            return SymBytes(out) if out else b''

        def bytearray(self, b=b''):
            return SymByteArray(values.bitems_of(b))

        def json(self, v, isbytes=True):
            from .models import SymJson
            return SymJson(v, isbytes)

        def assume(self, c):
            c = truth(c)
            if isinstance(c, SymBool):
                self.c.assume(c.e)
            elif not c:
                raise core.PathEnd('assume')

        def check(self, c, label, msg=''):
            ctx = self.c
            ctx.labels[label] = ctx.labels.get(label, 0) + 1
            c = truth(c)
            core.STATS.check_queries += 1
            if not isinstance(c, SymBool):
                if not c:
                    ctx.violations.append(witness(ctx, label, msg))
                    raise core.Violation(label)
                return
            neg = z3.simplify(z3.Not(c.e))
            r = ctx.possible(neg)
            if r is None:
                ctx.inconclusive.append('unknown: check ' + label)
                return
            if r:
                m = ctx._last_model
                save = ctx.model
                ctx.model = m
                ctx.violations.append(witness(ctx, label, msg))
                ctx.model = save
                # continue on the values that satisfy the check, if any
                ctx.add(c.e)
                ctx.get_model()

        def reach(self, label):
            self.c.labels[label] = self.c.labels.get(label, 0) + 1

        def observe(self, name, v):
            self.c.observed.append((name, v))

        def And(self, *xs):
            return sym_and(*xs)

        def Or(self, *xs):
            return sym_or(*xs)

        def Not(self, x):
            return sym_not(x)

        def ite(self, c, a, b):
            c = truth(c)
            if not isinstance(c, SymBool):
                return a if c else b
            if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
                return values.ite_int(c, a, b)
            if isinstance(a, (SymReal,)) or isinstance(b, SymReal):
                return SymReal(z3.If(c.e, values.as_real(a), values.as_real(b)))
            if isinstance(a, (SymFP, float)) and isinstance(b, (SymFP, float)):
                return values.mk_fp(z3.If(c.e, values.as_fp(a), values.as_fp(b)))
            return a if c else b

        def possible(self, c):
            c = truth(c)
            if isinstance(c, SymBool):
                return self.c.possible(c.e)
            return bool(c)

        def isnan(self, x):
            if isinstance(x, SymFP):
                return mk_bool(z3.fpIsNaN(x.e))
            return isinstance(x, float) and math.isnan(x)

        def tol(self, eps):
            return 0

        def threads(self, fns, bound=2):
            """run the functions as threads under every schedule with at most `bound` preemptions"""
            from . import models
            self.c.sched = sched.Sched(sched.Symbolic(self.c, bound), deadlock=models.DeadlockError, abort=core.Abort)
            return self.c.sched.run(fns)

        def note_incomplete(self, why):
            self.c.incomplete.append(why)

    def ev_char(m, x):
        return x if isinstance(x, int) else m.eval(x, model_completion=True).as_long()

    def concretise(m, v):
        """Value of v under model m as a plain Python object."""
        if isinstance(v, SymInt):
            return m.eval(v.e, model_completion=True).as_signed_long()
        if isinstance(v, SymBool):
            return z3.is_true(m.eval(v.e, model_completion=True))
        if isinstance(v, SymFP):
            return values.fp_const(m.eval(v.e, model_completion=True))
        if isinstance(v, SymReal):
            return values.real_const(m.eval(v.e, model_completion=True))
        if isinstance(v, SymStr):
            out = []
            for i in v.items:
                if isinstance(i, NumAtom):
                    n = concretise(m, i.v)
                    s = format(n, 'x' if i.base == 16 else 'd').zfill(i.pad)
                    out.append(s.upper() if i.upper else s)
                else:
                    out.append(chr(ev_char(m, i)))
            return ''.join(out)
        if isinstance(v, SymBytes):
            return bytes(ev_char(m, i) for i in v.items)
        if isinstance(v, dict):
            return {(concretise(m, a)): concretise(m, b) for a, b in v.items()}
        if isinstance(v, list):
            return [concretise(m, x) for x in v]
        if isinstance(v, tuple):
            return tuple(concretise(m, x) for x in v)
        return v

    def dump_inputs(ctx, m):
        out = []
        for name, kind, p in ctx.inputs:
            if kind in ('int', 'choose'):
                out.append((name, kind, str(concretise(m, p))))
            elif kind == 'bool':
                out.append((name, kind, bool(concretise(m, p))))
            elif kind in ('float', 'real'):
                f = concretise(m, p)
                out.append((name, kind, 'nan' if math.isnan(f) else float(f).hex()))
            elif kind == 'str':
                out.append((name, kind, [ev_char(m, x) for x in p]))
            elif kind == 'bytes':
                out.append((name, kind, bytes(ev_char(m, x) for x in p).hex()))
            else:
                out.append((name, kind, p))
        return out

    def diverse(ctx, n, rng):
        """Up to n differing witnesses of the path as far as it got."""
        prefs = []
        for name, kind, p in ctx.inputs:
            if kind == 'int' and isinstance(p, SymInt):
                w = p.e.size()
                for k in (0, 1, 2, 63, 64):
                    if k < w - 2:
                        prefs.append(p.e >= z3.BitVecVal(1 << k, w))
                        prefs.append(p.e <= z3.BitVecVal(1 << k, w))
            elif kind == 'str':
                for x in p:
                    if not isinstance(x, int):
                        for a, b in ((0x80, 0x10ffff), (0x20, 0x7e), (0x30, 0x39), (0x41, 0x5a), (0x61, 0x7a), (0x25, 0x25), (0x3a, 0x3a)):
                            prefs.append(values.ch_in(x, a, b))
            elif kind == 'bytes':
                for x in p:
                    if not isinstance(x, int):
                        prefs += [x == 0, z3.UGE(x, 128), z3.ULT(x, 128)]
            elif kind == 'float' and isinstance(p, SymFP):
                prefs += [z3.fpIsZero(p.e), z3.fpIsNegative(p.e), z3.fpIsInf(p.e), z3.fpGEQ(p.e, fpval(1.0))]
        out = []
        for k in range(n):
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*ctx.asserts)
            if s.check() != z3.sat:
                break
            m = s.model()
            rng.shuffle(prefs)
            for q in prefs[:0 if k == 0 else 6]:
                if z3.is_true(m.eval(q, model_completion=True)):
                    s.add(q)
                    continue
                s.push()
                s.add(q)
                if s.check() == z3.sat:
                    m = s.model()
                else:
                    s.pop()
            d = dump_inputs(ctx, m)
            if d not in out:
                out.append(d)
            if not prefs:
                break
        return out

    def witness(ctx, label, msg):
        m = ctx.get_model()
        try:
            msg = str(msg) if isinstance(msg, str) else ''
        except BaseException:
            msg = ''
        w = {'label': label, 'msg': msg, 'inputs': dump_inputs(ctx, m),
             'incomplete': list(ctx.incomplete)}
        if ctx.sched is not None:
            w['schedule'] = ctx.sched.dump(m)
        return w
