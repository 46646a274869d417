"""C11 baggage is inherited by descendants and isolated otherwise."""
from harness.common import *

BOUNDS = ('all sequences of 3 (thorough 4) operations out of start-child, start-child-of-context, extract-injected-child, set, remove on any span of the tree (at most 4 spans), the root having 0..1 inherited items; '
          'keys: one letter out of three (any equality pattern), values: any Unicode character or the empty text; reads of any of four mixed-case keys; two roots, fresh or from a context without a trace (with or without debug id), and all 3 sets and removals on them; one history of 200 items with one of 5000 characters; ids and flags arbitrary')
ASSUMPTIONS = ['single-threaded (the concurrent case is C20)']
REACH = ['inherit', 'isolation', 'ids', 'read', 'snapshot']


def mget(m, k):
    for kk, v in m:
        if kk == k:
            return v
    return None


def mset(m, k, v):
    return [(kk, vv) for kk, vv in m if kk != k] + ([(k, v)] if v is not None else [])


def sequence(E, n, start):
    t = make_tracer(sampler=StubSampler(True))
    E.set_clock(lambda: 1000.0)
    E.set_random(lambda kind, *a: E.int('rand', 1, (1 << a[0]) - 1) if kind == 'getrandbits' else 0.5)
    fl = E.int('flags', 0, 3)
    first = []
    if start:
        first = [(E.str('k0', 1, chars=[(0x61, 0x63)]), E.str('v0', 1))]
    bag = {}
    for k, v in first:
        bag[k] = v
    root = t.start_span('root', child_of=SpanContext(E.int('trace_id', 1, U128), E.int('span_id', 1, U64), None, fl, baggage=bag))
    spans = [(root, first)]       # (span, expected baggage)
    snaps = [(root.context, first)]
    if not start:
        r2 = t.start_span('fresh')
        E.check(len(r2.context.baggage) == 0, 'inherit', 'a root has baggage')
    for i in range(n):
        ops = ['child', 'child-ctx', 'set', 'remove'] if len(spans) < 4 else ['set', 'remove']
        op = E.pick('op%d' % i, ops)
        j = E.choose('span%d' % i, len(spans))
        sp, exp = spans[j]
        ids = (sp.trace_id, sp.span_id, sp.parent_id, sp.flags)
        if op == 'child':
            c = t.start_span('c', child_of=sp)
            spans.append((c, list(exp)))
            snaps.append((c.context, list(exp)))
        elif op == 'child-ctx':
            c = t.start_span('c', child_of=sp.context)
            spans.append((c, list(exp)))
        else:
            k = E.str('k%d' % (i + 1), 1, chars=[(0x61, 0x63)])
            v = E.str('v%d' % (i + 1), (0, 1)) if op == 'set' else None
            r = sp.set_baggage_item(k, v)
            E.check(r is sp, 'read', 'no chaining')
            spans[j] = (sp, mset(exp, k, v))
            got = sp.get_baggage_item(k)
            if v is None:
                E.check(got is None, 'read', 'removed item still there')
            else:
                E.check(got is not None and got == v, 'read', 'item differs from the value just set')
            snaps.append((sp.context, spans[j][1]))
        E.check(E.And(sp.trace_id == ids[0], sp.span_id == ids[1], sp.flags == ids[3]), 'ids', 'ids or flags changed')
        E.check((sp.parent_id is None) if ids[2] is None else (sp.parent_id is not None and sp.parent_id == ids[2]), 'ids', 'parent id changed')
    for sp, exp in spans:
        same_baggage(E, sp.context.baggage, exp, 'inherit')
        for k, v in exp:
            g = sp.get_baggage_item(k)
            E.check(g is not None and g == v, 'read', 'inherited or last value lost')
    E.reach('isolation')
    for c, exp in snaps:
        same_baggage(E, c.baggage, exp, 'snapshot')
    E.observe('bag', [[sp.context.baggage[k] for k in sp.context.baggage] for sp, _ in spans])


def context_only(E):
    """with_baggage_item gives a new context and leaves the old one alone"""
    k1, v1 = E.str('k1', 1, chars=[(0x61, 0x62)]), E.str('v1', 1)
    k2, v2 = E.str('k2', 1, chars=[(0x61, 0x62)]), E.str('v2', 1)
    c0 = SpanContext(E.int('trace_id', 1, U128), E.int('span_id', 1, U64), E.int('parent_id', 1, U64), E.int('flags', 0, 255))
    c1 = c0.with_baggage_item(k1, v1)
    c2 = c1.with_baggage_item(k2, v2)
    c3 = c2.with_baggage_item(k1, None)
    same_baggage(E, c0.baggage, [], 'snapshot')
    same_baggage(E, c1.baggage, [(k1, v1)], 'snapshot')
    same_baggage(E, c2.baggage, mset([(k1, v1)], k2, v2), 'snapshot')
    same_baggage(E, c3.baggage, mset(mset([(k1, v1)], k2, v2), k1, None), 'snapshot')
    for c in (c1, c2, c3):
        E.check(E.And(c.trace_id == c0.trace_id, c.span_id == c0.span_id, c.parent_id == c0.parent_id, c.flags == c0.flags), 'ids', 'ids or flags changed')
    E.check(len(SpanContext(1, 2, None, 1).baggage) == 0, 'snapshot', 'baggage shared between contexts')


def reads(E):
    """a read tells exactly what was set under exactly that key, in any order of operations"""
    t = make_tracer(sampler=StubSampler(True))
    mixed = [(0x41, 0x42), (0x61, 0x62)]
    sp = t.start_span('root', child_of=SpanContext(5, 6, None, 1, baggage={E.str('k0', 1, chars=mixed): 'v0'} if E.choose('inherited', 2) else None))
    exp = list(sp.context.baggage.items())
    for i in (1, 2):
        k = E.str('k%d' % i, 1, chars=mixed)
        sp.set_baggage_item(k, 'v%d' % i)
        exp = mset(exp, k, 'v%d' % i)
    c = t.start_span('child', child_of=sp)
    q = E.str('q', (0, 1), chars=mixed)
    want = mget(exp, q)
    for s in (sp, c):
        g = s.get_baggage_item(q)
        if want is None:
            E.check(g is None, 'read', 'item out of nowhere')
        else:
            E.check(g is not None and g == want, 'read', 'other item')


def references(E):
    """the baggage of a child is that of its parent, whatever else it refers to; a finished span still tells its baggage"""
    import opentracing
    t = make_tracer(sampler=StubSampler(True))
    k, v = E.str('k', 1, chars=[(0x61, 0x62)]), E.str('v', 1)
    ko, vo = E.str('ko', 1, chars=[(0x61, 0x63)]), E.str('vo', 1)
    other = SpanContext(E.int('other', 1, U128), 9, None, 1, baggage={ko: vo})
    p = t.start_span('parent', child_of=SpanContext(5, 6, None, 1)).set_baggage_item(k, v)
    if E.choose('finished', 2):
        p.finish()
    refs = [opentracing.follows_from(other), opentracing.child_of(other)]
    how = E.choose('how', 3)
    if how == 0:
        c = t.start_span('child', child_of=p, references=refs)
    elif how == 1:
        c = t.start_span('child', references=[opentracing.child_of(p.context)] + refs)
    else:
        with t.scope_manager.activate(p, False):
            c = t.start_span('child', child_of=p, references=refs[0])
    want = [(k, v)]
    same_baggage(E, c.context.baggage, want, 'inherit')
    k2, v2 = E.str('k2', 1, chars=[(0x61, 0x63)]), E.str('v2', 1)
    c.set_baggage_item(k2, v2)
    c.finish()
    E.check(c.get_baggage_item(k2) == v2, 'read', 'item differs from the value just set')
    same_baggage(E, c.context.baggage, mset(want, k2, v2), 'inherit')
    same_baggage(E, p.context.baggage, want, 'snapshot')
    same_baggage(E, other.baggage, [(ko, vo)], 'snapshot')


def roots(E, how):
    """roots: fresh, or from a context without a trace; items set on one show neither in contexts handed out before nor in other roots"""
    t = make_tracer(sampler=StubSampler(E.choose('sampled', 2) == 1))
    E.set_clock(lambda: 1000.0)
    first = []
    ctx = None
    if how != 'fresh':
        first = [(E.str('k0', 1, chars=[(0x61, 0x62)]), E.str('v0', 1))]
        ctx = SpanContext(None, None, None, None, baggage=dict(first), debug_id='dbg' if how == 'debug' else None)
    k = E.choose('throttled', 2) if how == 'debug' else 0
    if k:
        class No(object):
            def is_allowed(self, operation):
                return False
        t.throttler = No()
    spans = [t.start_span('root%d' % i, child_of=ctx) for i in range(2)]
    exp = [list(first), list(first)]
    snaps = [(sp.context, list(first)) for sp in spans]
    for i in range(3):
        j = E.choose('span%d' % i, 2) if i else 0
        key, v = E.str('k%d' % (i + 1), 1, chars=[(0x61, 0x62)]), (None if E.choose('remove%d' % i, 2) else E.str('v%d' % (i + 1), 1))
        spans[j].set_baggage_item(key, v)
        exp[j] = mset(exp[j], key, v)
        snaps.append((spans[j].context, list(exp[j])))
    for sp, x in zip(spans, exp):
        same_baggage(E, sp.context.baggage, x, 'inherit')
        c = t.start_span('child', child_of=sp)
        same_baggage(E, c.context.baggage, x, 'inherit')
    for c, x in snaps:
        same_baggage(E, c.baggage, x, 'snapshot')
    if ctx is not None:
        same_baggage(E, ctx.baggage, first, 'snapshot')


def many(E, n):
    """nothing is capped: many items, long values"""
    t = make_tracer(sampler=StubSampler(True))
    sp = t.start_span('root', child_of=SpanContext(5, 6, None, 1))
    exp = []
    for i in range(n):
        v = E.str('v%d' % i, 1) + 'x' * (5000 if i == n // 2 else 0) if i in (0, n // 2, n - 1) else 'v%d' % i
        sp.set_baggage_item('k%d' % i, v)
        exp.append(('k%d' % i, v))
    c = t.start_span('child', child_of=sp)
    g = t.start_span('grandchild', child_of=c)
    same_baggage(E, sp.context.baggage, exp, 'inherit')
    same_baggage(E, g.context.baggage, exp, 'inherit')
    g.set_baggage_item('last', E.str('v', 1))
    same_baggage(E, c.context.baggage, exp, 'snapshot')
    E.check(len(g.context.baggage) == n + 1, 'inherit', 'items lost')


def scenarios(tier):
    deep = tier == 'thorough'
    n = 4 if deep else 3
    out = [('context', context_only, {}), ('reads', reads, {}), ('references', references, {}), ('many', many, dict(n=200))]
    out += [('roots-' + h, roots, dict(how=h)) for h in ('fresh', 'baggage', 'debug')]
    for k in range(1, n + 1):
        for s in (0, 1):
            out.append(('seq%d-%d' % (k, s), sequence, dict(n=k, start=s)))
    return out
