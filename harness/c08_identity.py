"""C08 span identity: trace, parent and reference linkage."""
import opentracing
from opentracing import Reference, ReferenceType
from harness.common import *

BOUNDS = ('every combination of explicit parent (none, context, span, finished span, context without a trace), references (none, empty, one bare reference, one without context, '
          'two, three to one context, one without context then two, one whose context has no trace then one), active span or not, ignore flag, span kind (none, client, server, five other values), one-span-per-RPC, 128-bit ids; all ids 64/128 bit and all random draws')
ASSUMPTIONS = ['random draws are arbitrary values of their range, stubbed at the random module']
REACH = ['root', 'child', 'rpc', 'references', 'wide', 'narrow']


def pctx(E, name, root=True):
    return sym_context(E, name=name, flags_hi=3, pid_lo=0 if root else 1)


def linkage(E, parent, refs, active):
    ignore = bool(E.choose('ignore', 2)) if active else False
    kind = E.pick('kind', [None, 'client', 'server'] if active or refs not in ('none', 'bare') else [None, 'client', 'server', 'servers', 'Server', 'serve', 5, ''])
    one = bool(E.choose('one', 2)) if kind == 'server' else kind not in (None, 'client')
    wide = bool(E.choose('wide', 2)) if parent in ('none', 'notrace') and (not active or ignore or refs == 'notrace-two') else bool(active)
    t = make_tracer(sampler=StubSampler(True), one_span_per_rpc=one, generate_128bit_trace_id=wide)
    E.symbolic_random()
    E.set_clock(lambda: 1000.0)
    explicit = None
    child_of = None
    if parent == 'ctx':
        explicit = child_of = pctx(E, 'p')
    elif parent == 'span':
        child_of = t.start_span('parent', child_of=pctx(E, 'p', False))
        explicit = child_of.context
        if refs in ('none', 'two') and not active and E.choose('finished', 2):
            child_of.finish()
    elif parent == 'notrace':
        child_of = explicit = SpanContext(None, None, None, None, baggage={'a': 'b'})
    r = None
    given = []
    c1, c2 = None, None
    if refs == 'empty':
        r = []
    elif refs == 'bare':
        c1 = pctx(E, 'r1')
        r = opentracing.follows_from(c1)
        given = [r]
    elif refs == 'void':
        r = [Reference(ReferenceType.CHILD_OF, None)]
    elif refs == 'two':
        c1, c2 = pctx(E, 'r1'), pctx(E, 'r2', False)
        r = [opentracing.child_of(c1), opentracing.follows_from(c2)]
        given = list(r)
    elif refs == 'same-two':
        c1 = pctx(E, 'r1')
        r = [opentracing.child_of(c1), opentracing.follows_from(c1), opentracing.child_of(c1)]
        given = list(r)
    elif refs == 'void-two':
        c1, c2 = pctx(E, 'r1'), pctx(E, 'r2', False)
        r = [Reference(ReferenceType.CHILD_OF, None), opentracing.follows_from(c1), opentracing.child_of(c2)]
        given = r[1:]
    elif refs == 'notrace-two':
        c1, c2 = SpanContext(None, None, None, None, baggage={'c': 'd'}), pctx(E, 'r2', False)
        r = [opentracing.follows_from(c1), opentracing.child_of(c2)]
        given = list(r)
    act = None
    if active:
        act = t.start_span('active', child_of=pctx(E, 'a', parent == 'none' and refs in ('none', 'void')))
        t.scope_manager.activate(act, False)
    tags = {'span.kind': kind} if kind is not None else None
    via = E.choose('via', 2) if refs in ('none', 'two') else 0
    args = dict(operation_name='op', child_of=child_of, references=r, tags=tags, ignore_active_span=ignore)
    if via:
        scope = t.start_active_span(**args)
        sp = scope.span
        E.check(t.active_span is sp, 'active', 'started span is not active')
        scope.close()
        E.check(t.active_span is act, 'active', 'previous active span not restored')
    else:
        sp = t.start_span(**args)
        E.check(t.active_span is act, 'active', 'active span changed')
    # reference
    want = explicit if parent in ('ctx', 'span') else None
    if want is None and c1 is not None:
        want = c1
    first = c1
    if want is None and explicit is None and first is None and act is not None and not ignore:
        want = act.context
    if want is None or not want.has_trace:
        E.check(sp.parent_id is None, 'root', 'new trace with a parent id')
        E.check(E.And(sp.span_id > 0, sp.span_id <= U64), 'root', 'span id out of range')
        if wide:
            E.check(E.And(sp.trace_id > 0, sp.trace_id <= U128), 'wide', 'trace id out of range')
        else:
            E.check(E.And(sp.trace_id > 0, sp.trace_id <= U64), 'narrow', 'trace id out of range')
    else:
        E.check(sp.trace_id == want.trace_id, 'child', 'trace id differs from the parent')
        if kind == 'server' and one:
            E.check(sp.span_id == want.span_id, 'rpc', 'span id differs from the parent')
            if sp.parent_id is None:
                E.check(want.parent_id is None, 'rpc', 'parent id lost')
            else:
                E.check(want.parent_id is not None and sp.parent_id == want.parent_id, 'rpc', 'parent id differs')
        else:
            E.check(sp.parent_id is not None and sp.parent_id == want.span_id, 'child', 'parent id is not the span id of the parent')
            E.check(E.And(sp.span_id > 0, sp.span_id <= U64), 'child', 'span id out of range')
    got = sp.references or []
    E.check(len(got) == len(given), 'references', 'number of references')
    for a, b in zip(got, given):
        E.check(a.type == b.type and a.referenced_context is b.referenced_context, 'references', 'reference differs')
    E.observe('ids', [sp.trace_id, sp.span_id, sp.parent_id])


def randomness(E, wide):
    """every id that is configured for can be drawn (existential: the solver finds the draw; the replay samples the real generator)"""
    t = make_tracer(sampler=StubSampler(False), generate_128bit_trace_id=wide)
    top = U128 if wide else U64
    if E.symbolic:
        E.set_random(lambda kind, *a: E.int('rand', 1, (1 << a[0]) - 1) if kind == 'getrandbits' else 0.5)
        sp = t.start_span('op')
        ok = E.possible(sp.trace_id > (top >> 1)) and E.possible(sp.span_id > (U64 >> 1)) and E.possible(sp.span_id <= (U64 >> 1))
        if wide:
            ok = ok and E.possible((sp.trace_id >> 64) != (sp.trace_id & U64))
    else:
        sps = [t.start_span('op') for _ in range(300)]
        ok = any(s.trace_id > (top >> 1) for s in sps) and any(s.span_id > (U64 >> 1) for s in sps) and any(s.span_id <= (U64 >> 1) for s in sps)
        ok = ok and len(set(s.span_id for s in sps)) == 300 and len(set(s.trace_id for s in sps)) == 300
        if wide:
            ok = ok and any((s.trace_id >> 64) != (s.trace_id & U64) for s in sps)
    E.check(ok, 'range', 'ids do not use their whole range')


def scenarios(tier):
    out = []
    for parent in ('none', 'ctx', 'span', 'notrace'):
        for refs in ('none', 'empty', 'bare', 'void', 'two', 'same-two', 'void-two', 'notrace-two'):
            for active in (False, True):
                out.append(('%s-%s-%s' % (parent, refs, 'active' if active else 'idle'), linkage, dict(parent=parent, refs=refs, active=active)))
    out.append(('range64', randomness, dict(wide=False)))
    out.append(('range128', randomness, dict(wide=True)))
    return out
