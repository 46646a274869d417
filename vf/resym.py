"""Regular expressions on symbolic text: the parse tree of the standard library, matched with backtracking;
every test of a symbolic character is a decision of the path."""
import re
import re._constants as rc
import re._parser as rp
from . import core
from .core import Unsupported
from .values import (Sym, SymStr, SymBytes, SymByteArray, CW, ch_set, ch_eq, dec, mk_str, mk_bytes, sym_join,
                     concretize_index)
import z3

_ALL = None
_SETS = {}
_TREES = {}
LIMIT = 200000


def scan(pattern, flags):
    """code point ranges of a single-character pattern, read off the running Python"""
    global _ALL
    key = (pattern, flags)
    if key not in _SETS:
        if _ALL is None:
            _ALL = ''.join(map(chr, range(0x110000)))
        p = re.compile('(?:%s)+' % pattern, flags & ~re.M)
        _SETS[key] = [(m.start(), m.end() - 1) for m in p.finditer(_ALL)]
    return _SETS[key]


def negate(rs):
    out, at = [], 0
    for a, b in sorted(rs):
        if a > at:
            out.append((at, a - 1))
        at = max(at, b + 1)
    if at <= 0x10FFFF:
        out.append((at, 0x10FFFF))
    return out


CAT = {rc.CATEGORY_DIGIT: r'\d', rc.CATEGORY_NOT_DIGIT: r'\D', rc.CATEGORY_SPACE: r'\s', rc.CATEGORY_NOT_SPACE: r'\S',
       rc.CATEGORY_WORD: r'\w', rc.CATEGORY_NOT_WORD: r'\W'}


class Matcher(object):
    def __init__(self, pattern, chars, isbytes):
        self.chars = chars
        self.n = len(chars)
        self.isbytes = isbytes
        self.steps = 0

    def fl(self, flags):
        f = flags & (re.I | re.A)
        if self.isbytes:
            f |= re.A
        return f

    def ranges(self, op, av, flags):
        key = (op, repr(av), int(flags), self.isbytes)
        if key in _SETS:
            return _SETS[key]
        f = self.fl(flags)
        if op in (rc.LITERAL, rc.NOT_LITERAL):
            r = scan(re.escape(chr(av)), f) if f & re.I else [(av, av)]
            if op is rc.NOT_LITERAL:
                r = negate(r)
        elif op is rc.ANY:
            r = [(0, 0x10FFFF)] if flags & re.S else negate([(10, 10)])
        else:
            r, neg = [], False
            for o, a in av:
                if o is rc.NEGATE:
                    neg = True
                elif o is rc.LITERAL:
                    r += self.ranges(rc.LITERAL, a, flags)
                elif o is rc.RANGE:
                    r += scan('[%s-%s]' % (re.escape(chr(a[0])), re.escape(chr(a[1]))), f) if f & re.I else [tuple(a)]
                elif o is rc.CATEGORY:
                    r += scan(CAT[a], f)
                else:
                    raise Unsupported('re set %s' % (o,))
            if neg:
                r = negate(r)
        _SETS[key] = r
        return r

    def test(self, i, rs):
        c = self.chars[i]
        if not isinstance(c, int) and self.isbytes and c.size() < CW:
            c = z3.ZeroExt(CW - c.size(), c)
        if isinstance(c, int):
            return any(a <= c <= b for a, b in rs)
        return dec(z3.simplify(ch_set(c, rs)))

    def at(self, av, i, flags):
        if av is rc.AT_BEGINNING:
            return i == 0 or bool(flags & re.M and self.test(i - 1, [(10, 10)]))
        if av is rc.AT_BEGINNING_STRING:
            return i == 0
        if av is rc.AT_END:
            if i == self.n:
                return True
            return bool((i == self.n - 1 or flags & re.M) and self.test(i, [(10, 10)]))
        if av is rc.AT_END_STRING:
            return i == self.n
        w = scan(r'\w', self.fl(flags) & ~re.I)
        b = (i > 0 and self.test(i - 1, w)) != (i < self.n and self.test(i, w))
        if av is rc.AT_BOUNDARY:
            return b
        if av is rc.AT_NON_BOUNDARY:
            return not b
        raise Unsupported('re %s' % (av,))

    def seq(self, nodes, k, i, g, flags):
        """every (end, groups) of nodes[k:] from i, in order of preference"""
        self.steps += 1
        if self.steps > LIMIT:
            raise Unsupported('re steps')
        if k == len(nodes):
            yield i, g
            return
        op, av = nodes[k]
        if op in (rc.LITERAL, rc.NOT_LITERAL, rc.ANY, rc.IN):
            if i < self.n and self.test(i, self.ranges(op, av, flags)):
                yield from self.seq(nodes, k + 1, i + 1, g, flags)
        elif op is rc.AT:
            if self.at(av, i, flags):
                yield from self.seq(nodes, k + 1, i, g, flags)
        elif op is rc.SUBPATTERN:
            gid, add, rem, sub = av
            for j, h in self.seq(sub, 0, i, g, (flags | add) & ~rem):
                if gid is not None:
                    h = dict(h)
                    h[gid] = (i, j)
                    h['last'] = gid
                yield from self.seq(nodes, k + 1, j, h, flags)
        elif op is rc.BRANCH:
            for b in av[1]:
                for j, h in self.seq(b, 0, i, g, flags):
                    yield from self.seq(nodes, k + 1, j, h, flags)
        elif op in (rc.MAX_REPEAT, rc.MIN_REPEAT, rc.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            if op is rc.POSSESSIVE_REPEAT:
                for j, h in self.repeat(sub, lo, hi, 0, i, g, flags, True):
                    yield from self.seq(nodes, k + 1, j, h, flags)
                    break
            else:
                for j, h in self.repeat(sub, lo, hi, 0, i, g, flags, op is rc.MAX_REPEAT):
                    yield from self.seq(nodes, k + 1, j, h, flags)
        elif op is rc.ATOMIC_GROUP:
            for j, h in self.seq(av, 0, i, g, flags):
                yield from self.seq(nodes, k + 1, j, h, flags)
                break
        elif op is rc.GROUPREF:
            if av in g:
                a, b = g[av]
                m = b - a
                if i + m <= self.n and all(dec(z3.simplify(z3.And(ch_eq(x, y), core.TRUE))) if not (isinstance(x, int) and isinstance(y, int)) else x == y
                                           for x, y in zip(self.chars[a:b], self.chars[i:i + m])):
                    yield from self.seq(nodes, k + 1, i + m, g, flags)
        elif op is rc.GROUPREF_EXISTS:
            gid, yes, no = av
            sub = yes if gid in g else (no or [])
            for j, h in self.seq(sub, 0, i, g, flags):
                yield from self.seq(nodes, k + 1, j, h, flags)
        elif op in (rc.ASSERT, rc.ASSERT_NOT):
            d, sub = av
            found = None
            if d > 0:
                for j, h in self.seq(sub, 0, i, g, flags):
                    found = h
                    break
            else:
                lo, hi = rp.SubPattern.getwidth(sub)
                if i - lo >= 0:
                    for j, h in self.seq(sub, 0, i - lo, g, flags):
                        if j == i:
                            found = h
                            break
            if (found is not None) == (op is rc.ASSERT):
                yield from self.seq(nodes, k + 1, i, found if op is rc.ASSERT else g, flags)
        else:
            raise Unsupported('re %s' % (op,))

    def repeat(self, sub, lo, hi, cnt, i, g, flags, greedy):
        more = hi is rc.MAXREPEAT or cnt < hi
        if not greedy and cnt >= lo:
            yield i, g
        if more:
            for j, h in self.seq(sub, 0, i, g, flags):
                if j == i and cnt >= lo:
                    continue
                yield from self.repeat(sub, lo, hi, cnt + 1, j, h, flags, greedy)
        if greedy and cnt >= lo:
            yield i, g


class Match(object):
    def __init__(self, p, s, pos, endpos, span, g):
        self.re, self.string, self.pos, self.endpos = p, s, pos, endpos
        self._g = dict(g)
        self._g[0] = span
        self.lastindex = g.get('last')
        self.lastgroup = {v: k for k, v in p.groupindex.items()}.get(self.lastindex)

    def _id(self, k):
        if isinstance(k, Sym):
            k = k.concrete() if isinstance(k, SymStr) else concretize_index(k)
        if isinstance(k, str):
            if k not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[k]
        if not 0 <= k <= self.re.groups:
            raise IndexError('no such group')
        return k

    def _one(self, k, default=None):
        k = self._id(k)
        if k not in self._g:
            return default
        a, b = self._g[k]
        return self.string[a:b]

    def group(self, *ks):
        if len(ks) < 2:
            return self._one(ks[0] if ks else 0)
        return tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(i, default) for k, i in self.re.groupindex.items()}

    def span(self, k=0):
        return self._g.get(self._id(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self.re.groups + 1))

    def expand(self, template):
        return expand(self, template)

    def __bool__(self):
        return True


def expand(m, template):
    if isinstance(template, Sym):
        template = template.concrete()
    parts = rp.parse_template(template, m.re)
    empty = type(template)()
    return sym_join(empty, [m._one(x, empty) if isinstance(x, int) and i % 2 else x for i, x in enumerate(parts)])


def tree(p):
    t = _TREES.get(p)
    if t is None:
        t = _TREES[p] = rp.parse(p.pattern, p.flags & ~re.U if isinstance(p.pattern, bytes) else p.flags)
    return t


def text(p, s):
    isb = isinstance(p.pattern, bytes)
    if isinstance(s, SymStr):
        if isb:
            raise TypeError('cannot use a bytes pattern on a string-like object')
        return list(s.chars())
    if isinstance(s, SymBytes):
        if not isb:
            raise TypeError('cannot use a string pattern on a bytes-like object')
        return list(s.items)
    return [ord(c) for c in s] if isinstance(s, str) else list(s)


def find(p, s, pos=0, endpos=None, how='search', chars=None, empty_at=None):
    chars = text(p, s) if chars is None else chars
    n = len(chars)
    endpos = n if endpos is None else min(max(concretize_index(endpos), 0), n)
    pos = min(max(concretize_index(pos), 0), n)
    t = tree(p)
    m = Matcher(p, chars[:endpos], isinstance(p.pattern, bytes))
    for i in range(pos, (endpos if how == 'search' else pos) + 1):
        if i > endpos:
            break
        for j, g in m.seq(t, 0, i, {}, p.flags):
            if how == 'fullmatch' and j != endpos:
                continue
            if i == j == empty_at:
                continue
            return Match(p, s, pos, endpos, (i, j), g)
    return None


def finditer(p, s, pos=0, endpos=None):
    chars = text(p, s)
    empty_at = None
    pos = concretize_index(pos)
    while True:
        m = find(p, s, pos, endpos, 'search', chars, empty_at)
        if m is None:
            return
        yield m
        pos = m.end()
        empty_at = pos if m.start() == pos else None      # after an empty match, something must be consumed here


def findall(p, s, pos=0, endpos=None):
    out = []
    empty = b'' if isinstance(p.pattern, bytes) else ''
    for m in finditer(p, s, pos, endpos):
        g = m.groups(empty)
        out.append(m.group() if not g else g[0] if len(g) == 1 else g)
    return out


def split(p, s, maxsplit=0):
    out, at = [], 0
    for m in finditer(p, s):
        if maxsplit and len(out) // (1 + p.groups) >= maxsplit:
            break
        out.append(s[at:m.start()])
        out.extend(m.groups())
        at = m.end()
    out.append(s[at:])
    return out


def subn(p, repl, s, count=0):
    from . import models
    out, at, k = [], 0, 0
    for m in finditer(p, s):
        if count and k >= count:
            break
        out.append(s[at:m.start()])
        if isinstance(repl, (str, bytes)):
            out.append(expand(m, repl))
        elif isinstance(repl, Sym):
            if dec_any_backslash(repl):
                out.append(expand(m, repl))
            else:
                out.append(repl)
        else:
            out.append(models.call(repl, m))
        at = m.end()
        k += 1
    out.append(s[at:])
    return sym_join(b'' if isinstance(p.pattern, bytes) else '', out), k


def dec_any_backslash(r):
    items = r.chars() if isinstance(r, SymStr) else r.items
    return any(x == 92 if isinstance(x, int) else dec(ch_eq(x, 92) if x.size() == CW else x == z3.BitVecVal(92, 8)) for x in items)


METHODS = {
    'match': lambda p, s, pos=0, endpos=None: find(p, s, pos, endpos, 'match'),
    'fullmatch': lambda p, s, pos=0, endpos=None: find(p, s, pos, endpos, 'fullmatch'),
    'search': lambda p, s, pos=0, endpos=None: find(p, s, pos, endpos, 'search'),
    'finditer': finditer, 'findall': findall, 'split': lambda p, string, maxsplit=0: split(p, string, maxsplit),
    'subn': lambda p, repl, string, count=0: subn(p, repl, string, count),
    'sub': lambda p, repl, string, count=0: subn(p, repl, string, count)[0],
}


def method(p, name, a, k):
    return METHODS[name](p, *a, **({('s' if x == 'string' and name in ('match', 'fullmatch', 'search', 'finditer', 'findall') else x): v for x, v in k.items()}))


def function(name):
    def f(pattern, *a, flags=0, **k):
        n = {'sub': 3, 'subn': 3, 'split': 2}.get(name)
        if n is None and len(a) > 1:
            flags, a = a[1], a[:1]
        elif n is not None and len(a) > n:
            flags, a = a[n], a[:n]
        if isinstance(pattern, Sym):
            pattern = pattern.concrete()
        p = re.compile(pattern, flags) if not isinstance(pattern, re.Pattern) else pattern
        return method(p, name, a, k)
    return f
