"""C20 concurrent updates of a span are not lost."""
from jaeger_client import thrift as jthrift
from jaeger_client.span import Span
from harness.common import *

THREADS = True
BOUNDS = ('two threads with one or two operations each out of setting a tag, logging, setting a baggage item (same or different key), setting the sampling priority (0, 1, refused), renaming, finishing and building the batch, plus three threads with one operation each; every flags value of the span, every integer tag value; '
          'every schedule with at most 1 or 2 (thorough 2 or 3) preemptions')
ASSUMPTIONS = ['a preemption happens only where the code accesses an attribute or container that some code changes, or takes a lock', 'the order in which concurrent logs appear is not specified']
REACH = ['kept', 'sequential', 'batch', 'raises', 'reader']


class Op(object):
    """an operation of a thread; run(span) performs it"""

    def __init__(self, kind, name, arg):
        self.kind, self.name, self.arg = kind, name, arg

    def run(self, s):
        k, n, a = self.kind, self.name, self.arg
        if k == 't':
            s.set_tag('tag' + n, a)
        elif k == 'l':
            s.log_kv({'log': n, 'n': a}, timestamp=5.0)
        elif k == 'b':
            s.set_baggage_item('item' + n, 'value' + n)
        elif k == 'c':
            s.set_baggage_item('common', 'value' + n)
        elif k == 'p':
            s.set_tag('sampling.priority', 1)
        elif k == 'q':
            s.set_tag('sampling.priority', 0)
        elif k == 'n':
            s.set_operation_name('name' + n)
        elif k == 'f':
            s.finish(20.0)


def make(E, flags, debug):
    rep = RecordingReporter()
    t = make_tracer(rep, throttler=StubThrottler(debug))
    s = Span(SpanContext(5, 6, 7, flags, {'old': 'x'}), t, 'op', start_time=10.0)
    return s


def tag(t):
    return (t.key, t.vStr if t.vStr is not None else t.vBool if t.vBool is not None else t.vLong)


def state(s):
    """what an observer sees of the span (logs in any order)"""
    return (s.flags, s.operation_name, [tag(x) for x in s.tags], [[tag(f) for f in l.fields] for l in s.logs], sorted(s.context.baggage.items()), s.finished, len(s.tracer.reporter.spans))


def eq_tags(E, a, b):
    """the same tags up to order"""
    if sorted(x[0] for x in a) != sorted(x[0] for x in b):
        return False
    out = []
    for k, v in a:
        ws = [w for j, w in b if j == k]
        out.append(E.Or(*[same(E, v, w) for w in ws]))
    return E.And(*out + [True])


def same(E, v, w):
    if isinstance(v, str) or isinstance(w, str):
        return isinstance(v, str) and isinstance(w, str) and v == w
    return v == w


def eq_log(E, a, b):
    return E.And(*[E.And(x[0] == y[0], same(E, x[1], y[1])) for x, y in zip(a, b)] + [len(a) == len(b)])


def eq_state(E, a, b):
    if len(a[2]) != len(b[2]) or len(a[3]) != len(b[3]) or a[1] != b[1] or a[4] != b[4] or a[5] != b[5] or a[6] != b[6]:
        return False
    logs = E.And(*[E.Or(*[eq_log(E, x, y) for y in b[3]]) for x in a[3]] + [E.Or(*[eq_log(E, x, y) for x in a[3]]) for y in b[3]] + [True])
    return E.And(a[0] == b[0], eq_tags(E, a[2], b[2]), logs)


def merges(seqs):
    """all interleavings of the sequences"""
    live = [i for i, q in enumerate(seqs) if q]
    if not live:
        return [[]]
    out = []
    for i in live:
        rest = [q[1:] if j == i else q for j, q in enumerate(seqs)]
        out += [[seqs[i][0]] + m for m in merges(rest)]
    return out


def program(E, ops):
    """ops: one string of operation letters for each thread"""
    return [[Op(k, '%d%d' % (i, j), E.int('n%d%d' % (i, j), 0, 1 << 40) if k in 'tl' else None) for j, k in enumerate(w)] for i, w in enumerate(ops)]


def updates(E, ops, bound, flags=None, debug=True):
    E.set_clock(lambda: 15.0)
    fl = E.int('flags', 0, 3) if flags is None else flags
    if flags is None:
        fl = 0 if fl == 0 else 1 if fl == 1 else 2 if fl == 2 else 3
    prog = program(E, ops)
    s = make(E, fl, debug)

    def body(seq):
        def run():
            for o in seq:
                o.run(s)
        return run
    ts = E.threads([body(q) for q in prog], bound)
    for t in ts:
        E.check(t.exc is None, 'raises', 'an update raises %s' % (type(t.exc).__name__,))
    got = state(s)
    if fl & 1 and 'q' not in ''.join(ops):
        for q in prog:
            for o in q:
                if o.kind == 't':
                    E.check([x for x in got[2] if x[0] == 'tag' + o.name] != [], 'kept', 'a tag is lost')
                elif o.kind == 'l':
                    E.check(any(x[0] == ('log', o.name) for x in got[3]), 'kept', 'a log is lost')
    for q in prog:
        for o in q:
            if o.kind == 'b':
                E.check(('item' + o.name, 'value' + o.name) in got[4], 'kept', 'a baggage item is lost')
    E.check(('old', 'x') in got[4], 'kept', 'a baggage item is lost')
    want = []
    for m in merges(prog):
        twin = make(E, fl, debug)
        for o in m:
            o.run(twin)
        st = state(twin)
        if not any(st is w for w in want):
            want.append(st)
    E.check(E.Or(*[eq_state(E, got, w) for w in want]), 'sequential', 'the state is that of no sequential order')


def batches(E, ops, bound):
    """the batch is built while another thread changes the span: it shows the span before or after each of the other thread's operations"""
    E.set_clock(lambda: 15.0)
    fl = E.int('flags', 0, 3)
    fl = 1 if fl == 1 else 3 if fl == 3 else 0
    prog = program(E, [ops])
    s = make(E, fl, True)
    s.start_time, s.end_time = 10.0, 12.0
    out = []
    process = jthrift.make_process('svc', {}, 100)

    def build(x):
        b = jthrift.make_jaeger_batch([x], process).spans[0]
        return (b.flags, b.operationName, [tag(y) for y in b.tags], [[tag(f) for f in l.fields] for l in b.logs], [], False, 0)

    def reader():
        out.append(build(s))

    def writer():
        for o in prog[0]:
            o.run(s)
    ts = E.threads([reader, writer], bound)
    for t in ts:
        E.check(t.exc is None, 'raises', '%s raised' % (type(t.exc).__name__,))
    want = []
    twin = make(E, fl, True)
    twin.start_time, twin.end_time = 10.0, 12.0
    want.append(build(twin))
    for o in prog[0]:
        o.run(twin)
        twin.end_time = 12.0
        want.append(build(twin))
    if ops and ops[0] in 'bc':
        # a baggage item changes the span in two steps of which only the log shows in the batch
        pass
    E.check(E.Or(*[eq_state(E, out[0], w) for w in want]), 'batch', 'the batch mixes states of the span')


def readers(E, ops, bound):
    """reading the span while another thread changes it never raises and shows old or new values"""
    E.set_clock(lambda: 15.0)
    prog = program(E, [ops])
    s = make(E, 1, True)
    seen = []

    def reader():
        seen.append((s.is_sampled(), s.flags, s.get_baggage_item('old'), dict(s.context.baggage), s.is_rpc(), s.is_rpc_client(), repr(s), s.is_debug()))
        car = {}
        s.tracer.inject(s.context, Format.TEXT_MAP, car)
        seen.append(car)

    def writer():
        for o in prog[0]:
            o.run(s)
    ts = E.threads([reader, writer], bound)
    for t in ts:
        E.check(t.exc is None, 'raises', '%s raised' % (type(t.exc).__name__,))
    E.check(seen[0][2] == 'x' and seen[0][3]['old'] == 'x' and 'uberctx-old' in seen[1], 'reader', 'a baggage item disappears')
    E.check(seen[0][1] in (0, 1, 3) and seen[1]['uber-trace-id'] in ('5:6:7:0', '5:6:7:1', '5:6:7:3'), 'reader', 'the context is torn')


def scenarios(tier):
    th = tier == 'thorough'
    b = 3 if th else 2
    out = []
    kinds = 'tlbcpqnf'
    pairs = [x + y for i, x in enumerate(kinds) for y in kinds[i:]]
    for p in pairs:
        if p in ('nn', 'nt', 'nl'):
            continue
        out.append(('updates-%s-%s' % (p[0], p[1]), updates, dict(ops=(p[0], p[1]), bound=b)))
    two = [('tl', 'b'), ('tb', 't'), ('bb', 'b'), ('pt', 'q'), ('qt', 'p'), ('bp', 'b'), ('bq', 'l'), ('cc', 'c'), ('lf', 't'), ('tf', 'l')]
    if th:
        two += [('tt', 'tt'), ('bb', 'bb'), ('ll', 'll'), ('bt', 'tb'), ('pq', 'qp'), ('cb', 'bc')]
    for p in two:
        out.append(('updates-%s-%s' % p, updates, dict(ops=p, bound=2 if th else 1, flags=1)))
    for p in [('t', 't', 't'), ('b', 'b', 'b'), ('b', 'p', 'b'), ('l', 't', 'b')]:
        out.append(('updates3-' + ''.join(p), updates, dict(ops=p, bound=2 if th else 1, flags=1)))
    for p in [('p', 't'), ('p', 'b'), ('p', 'q'), ('p', 'p')]:
        out.append(('refused-%s-%s' % p, updates, dict(ops=p, bound=b, debug=False)))
    for p in ['t', 'l', 'b', 'p', 'q', 'n', 'tt', 'pt', 'tl', 'lt', 'ql', 'np']:
        out.append(('batch-' + p, batches, dict(ops=p, bound=b)))
    for p in ['t', 'b', 'p', 'bb', 'tb', 'qp']:
        out.append(('reader-' + p, readers, dict(ops=p, bound=2 if th else 1)))
    return out
