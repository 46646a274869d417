"""C09 sampling is decided once at the root and inherited."""
from harness.common import *

BOUNDS = ('every sampler decision; parent none, baggage-only, or with a trace and any flags 0..255; chains of up to 3 (thorough 4) spans over in-process, text-map, HTTP and binary hops; '
          'all ids; 64 and 128 bit trace ids; caller tags none, unrelated or of the same names as the sampler; operation name of 0..2 characters; finish with explicit or implicit time')
ASSUMPTIONS = ['sampler replaced by a stub returning an arbitrary decision']
REACH = ['consulted', 'inherits', 'reported', 'unsampled', 'tags', 'records']


def find(sp, key):
    return [x for x in sp.tags if x.key == key]


def root(E, via):
    d = E.bool('decision')
    s = StubSampler(d, {'sampler.type': 'stub', 'sampler.param': 7})
    rep = RecordingReporter()
    t = make_tracer(reporter=rep, sampler=s, generate_128bit_trace_id=bool(E.choose('wide', 2)))
    E.symbolic_random()
    E.set_clock(lambda: 1000.0)
    op = E.str('op', (0, 2))
    parent = None
    if via == 'baggage':
        parent = SpanContext(None, None, None, None, baggage={'k': 'v'})
    elif via == 'extracted':
        parent = t.extract(Format.TEXT_MAP, {'uberctx-k': 'v'})
    elif via == 'nothing':
        parent = t.extract(Format.HTTP_HEADERS, {})
    tags = E.pick('tags', [None, {}, {'x': 1}, {'sampler.type': 'mine', 'x': 1, 'sampler.param': 'mine'}])
    if tags is not None:
        tags = dict(tags)
    own = tags is not None and 'x' in tags
    sp = t.start_span(op, child_of=parent, tags=tags)
    E.check(len(s.calls) == 1, 'consulted', 'sampler consulted %d times for a new trace' % len(s.calls))
    E.check(E.And(s.calls[0][0] == sp.trace_id, s.calls[0][1] == op), 'consulted', 'sampler asked about another trace or operation')
    E.check(sp.is_sampled() == d, 'decision', 'flag differs from the decision')
    E.check(E.Not(sp.is_debug()), 'decision', 'debug out of nowhere')
    if d:
        E.check(sp.flags == 1, 'decision', 'flags of a sampled trace')
        a, b = find(sp, 'sampler.type'), find(sp, 'sampler.param')
        E.check(len(a) == 1 and a[0].vStr == 'stub' and len(b) == 1 and b[0].vLong == 7, 'tags', 'sampler tags missing')
        E.check(len(find(sp, 'x')) == (1 if own else 0), 'tags', 'span tags lost')
        E.check(len(sp.tags) == 2 + own, 'tags', 'number of tags')
    else:
        E.check(sp.flags == 0, 'decision', 'flags of an unsampled trace')
        E.check(len(sp.tags) == 0, 'unsampled', 'unsampled span has tags')
    E.check(E.Or(via in ('none', 'nothing'), sp.get_baggage_item('k') == 'v'), 'baggage', 'baggage lost')
    use(E, sp, rep, d)
    E.observe('flags', sp.flags)


def use(E, sp, rep, sampled):
    """record something, finish, and look at what reaches the reporter"""
    n0 = len(sp.tags)
    sp.set_tag('tag', E.int('v', 0, 9))
    sp.log_kv({'event': 'e'})
    sp.log_kv({'event': 'f'}, timestamp=5.0)
    sp.log_kv({'event': 'g'}, 6.0)
    before = len(rep.spans)
    sp.finish()
    if sampled:
        E.check(len(sp.tags) == n0 + 1 and len(sp.logs) == 3, 'records', 'sampled span loses tags or logs')
        E.check(len(rep.spans) == before + 1 and rep.spans[-1] is sp, 'reported', 'sampled span not reported')
    else:
        E.check(len(sp.tags) == n0 and len(sp.logs) == 0, 'unsampled', 'unsampled span records')
        E.check(len(rep.spans) == before, 'unsampled', 'unsampled span reported')


def child(E, hop):
    s = StubSampler(E.bool('decision'))
    rep = RecordingReporter()
    t = make_tracer(reporter=rep, sampler=s)
    E.symbolic_random()
    E.set_clock(lambda: 1000.0)
    fl = E.int('flags', 0, 255)
    ctx = SpanContext(E.int('trace_id', 1, U128), E.int('span_id', 1, U64), None, fl)
    ctx = over(E, t, ctx, hop)
    kind = E.pick('kind', [None, 'server'])
    sp = t.start_span('op', child_of=ctx, tags={'span.kind': kind} if kind else None)
    E.check(len(s.calls) == 0, 'inherits', 'sampler consulted for a child')
    E.check(sp.flags == fl, 'inherits', 'flags differ from the parent')
    E.check(sp.is_sampled() == (fl & 1 == 1), 'inherits', 'sampled bit')
    E.check(sp.is_debug() == (fl & 2 == 2), 'inherits', 'debug bit')
    if fl & 1 == 1:
        use(E, sp, rep, True)
    else:
        E.check(len(sp.tags) == 0, 'unsampled', 'unsampled span has tags')
        use(E, sp, rep, False)
    E.observe('flags', sp.flags)


def over(E, t, ctx, hop):
    if hop == 'local':
        return ctx
    if hop == 'text':
        c = {}
        t.inject(ctx, Format.TEXT_MAP, c)
        return t.extract(Format.TEXT_MAP, c)
    if hop == 'http':
        c = {}
        t.inject(ctx, Format.HTTP_HEADERS, c)
        return t.extract(Format.HTTP_HEADERS, c)
    c = E.bytearray()
    t.inject(ctx, Format.BINARY, c)
    return t.extract(Format.BINARY, c)


def chain(E, n):
    """a trace through several services: one decision for all spans"""
    d = E.bool('decision')
    samplers, reps, spans = [], [], []
    E.symbolic_random()
    E.set_clock(lambda: 1000.0)
    ctx = None
    for i in range(n):
        s = StubSampler(d if i == 0 else E.bool('other%d' % i))
        rep = RecordingReporter()
        t = make_tracer(reporter=rep, sampler=s)
        sp = t.start_span('op%d' % i, child_of=ctx)
        samplers.append(s)
        reps.append(rep)
        spans.append(sp)
        ctx = over(E, t, sp.context, E.pick('hop%d' % i, ['local', 'text', 'binary']))
    for i, sp in enumerate(spans):
        E.check(len(samplers[i].calls) == (1 if i == 0 else 0), 'inherits', 'sampler consulted for a descendant')
        E.check(sp.is_sampled() == d, 'inherits', 'decision not inherited')
        E.check(sp.trace_id == spans[0].trace_id, 'inherits', 'trace id differs')
        sp.finish()
        E.check((len(reps[i].spans) == 1) == d, 'reported', 'reported differs from the decision')


def scenarios(tier):
    deep = tier == 'thorough'
    out = [('root-' + v, root, dict(via=v)) for v in ('none', 'baggage', 'extracted', 'nothing')]
    out += [('child-' + h, child, dict(hop=h)) for h in ('local', 'text', 'http', 'binary')]
    out += [('chain%d' % n, chain, dict(n=n)) for n in ((2, 3, 4) if deep else (2, 3))]
    return out
