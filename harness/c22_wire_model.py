"""C22 spans are converted to the wire model without loss."""
from opentracing import Reference, ReferenceType, child_of, follows_from
from jaeger_client import thrift
from jaeger_client.thrift_gen.jaeger.ttypes import SpanRefType
from harness.common import *
from harness.vloop import Loop, Channel, Future
from jaeger_client.reporter import Reporter

BOUNDS = ('trace ids of 1..2^128-1, span ids of 1..2^64-1, parent ids of 0..2^64-1 or none, flags of 0..2^31-1, start and end times: every real in (0, 2^32] (end before start included), operation names of up to 3 '
          'characters; 0..2 (thorough 3) references of either kind with their own full-width ids, one of them possibly to a context without a trace; up to 3 spans in a batch with 0..2 tags and logs each; 3 tags and 2 logs whose keys and values may coincide; one span with 300 references, tags and logs')
ASSUMPTIONS = ['times are exact reals, truncation is exact', 'the batch is taken from thrift.make_jaeger_batch, and in one scenario from a reporter']
REACH = ['ids', 'noparent', 'times', 'refs', 'norefs', 'many', 'reporter']
M64 = U64


def pattern(E, got, want, label):
    """got is the signed 64-bit value with the bit pattern of want"""
    E.check(E.And(got >= -(1 << 63), got < (1 << 63)), label, 'does not fit 64 bits')
    E.check(E.Or(got == want, got == want - (1 << 64)), label, 'id differs')


def trace(E, low, high, tid, label='trace-id'):
    pattern(E, low, tid & M64, label)
    pattern(E, high, tid >> 64, label)


def one(E, sp, process=None):
    b = thrift.make_jaeger_batch(spans=[sp], process=process)
    E.check(b.process is process, 'process', 'process differs')
    E.check(len(b.spans) == 1, 'spans', 'number of spans differs')
    return b.spans[0]


def span_of(E, name='', flags_hi=(1 << 31) - 1, times=None, refs=None, parent=True):
    tid, sid = E.int(name + 'trace_id', 1, U128), E.int(name + 'span_id', 1, U64)
    pid = E.int(name + 'parent_id', 0, U64) if parent else None
    fl = E.int(name + 'flags', 0, flags_hi)
    op = E.str(name + 'op', 3)
    sp = Span(SpanContext(tid, sid, pid, fl), make_tracer(), op, start_time=times[0] if times else 1.5, references=refs)
    sp.end_time = times[1] if times else 2.75
    sp.finished = True
    return sp, (tid, sid, pid, fl, op)


def ids(E, parent):
    rs = [E.pick('ref', [child_of, follows_from])(SpanContext(5, 6, 7, 1))] if E.choose('refs', 2) else None
    sp, (tid, sid, pid, fl, op) = span_of(E, parent=parent, refs=rs)
    j = one(E, sp, process=object())
    trace(E, j.traceIdLow, j.traceIdHigh, tid)
    pattern(E, j.spanId, sid, 'span-id')
    if pid is None:
        E.reach('noparent')
        E.check(j.parentSpanId == 0, 'parent-id', 'parent of a root is not 0')
    else:
        pattern(E, j.parentSpanId, pid, 'parent-id')
    E.check(j.flags == fl, 'flags', 'flags differ')
    E.check(j.operationName == op, 'name', 'operation name differs')
    E.check(len(j.references or []) == (1 if rs else 0), 'refs', 'references out of nothing')
    E.check(E.And(j.startTime == 1500000, j.duration == 1250000), 'times', 'times differ')
    E.reach('ids')


def times(E, how):
    a, b = E.real('start', 0, 1 << 32, lo_open=True), E.real('end', 0, 1 << 32, lo_open=True)
    if how == 'api':
        E.set_clock(lambda: 7.0)
        rep = RecordingReporter()
        sp = make_tracer(reporter=rep).start_span('op', start_time=a)
        sp.finish(b)
        E.check(len(rep.spans) == 1, 'spans', 'span not reported')
        sp = rep.spans[0]
    else:
        sp, _ = span_of(E, times=(a, b))
    j = one(E, sp)
    E.check(j.startTime == int(a * 1000000), 'times', 'start time differs')
    E.check(j.duration == int((b - a) * 1000000), 'times', 'duration differs')
    E.reach('times')


def clock(E):
    """times taken from the clock, logs with given and taken times"""
    t = [E.real('t0', 1, 1 << 32), E.real('t1', 1, 1 << 32), E.real('t2', 1, 1 << 32)]
    now = [t[0]]
    E.set_clock(lambda: now[0])
    rep = RecordingReporter()
    sp = make_tracer(reporter=rep).start_span('op')
    now[0] = t[1]
    sp.log_kv({'a': 1})
    sp.log_kv({'b': 1}, timestamp=t[2])
    now[0] = t[2]
    sp.finish()
    j = one(E, rep.spans[0])
    E.check(j.startTime == int(t[0] * 1000000), 'times', 'start time differs')
    E.check(j.duration == int((t[2] - t[0]) * 1000000), 'times', 'duration differs')
    E.check(len(j.logs) == 2, 'logs', 'logs lost')
    E.check(j.logs[0].timestamp == int(t[1] * 1000000), 'logs', 'log time differs')
    E.check(j.logs[1].timestamp == int(t[2] * 1000000), 'logs', 'log time differs')


def refs(E, n):
    rs, want = [], []
    for i in range(n):
        kind = E.pick('kind%d' % i, ['child', 'follows', 'notrace', 'other', 'follows2', 'debug', 'noflags'])
        c = SpanContext(E.int('rt%d' % i, 1, U128), E.int('rs%d' % i, 1, U64), 0, None if kind == 'noflags' else 0, debug_id='dbg' if kind == 'debug' else None)
        if kind == 'notrace':
            rs.append(follows_from(SpanContext.with_debug_id('dbg')))
            continue
        rs.append({'child': child_of, 'follows': follows_from, 'debug': child_of, 'noflags': child_of, 'other': lambda x: Reference('other', x),
                   'follows2': lambda x: Reference('_'.join(['follows', 'from']), x)}[kind](c))
        want.append((kind, c))
    E.set_clock(lambda: 1.5)
    rep = RecordingReporter()
    sp = make_tracer(reporter=rep).start_span('op', child_of=SpanContext(1, 2, 3, 1), references=rs if n != 1 or E.choose('list', 2) else rs[0])
    sp.finish()
    E.check(len(rep.spans) == 1, 'spans', 'span not reported')
    j = one(E, rep.spans[0])
    got = [r for r in (j.references or [])]
    E.check(len(got) == len(want), 'refs', 'number of references differs')
    E.reach('refs' if want else 'norefs')
    for g, (kind, c) in zip(got, want):
        E.check(g.refType == (SpanRefType.FOLLOWS_FROM if kind.startswith('follows') else SpanRefType.CHILD_OF), 'refs', 'kind of reference differs')
        trace(E, g.traceIdLow, g.traceIdHigh, c.trace_id, 'refs')
        pattern(E, g.spanId, c.span_id, 'refs')


def refs_many(E, n):
    """many references, tags and logs: none is dropped"""
    rs, ids = [], []
    for i in range(n):
        v = E.int('r%d' % i, 1, U64) if i in (0, n // 2, n - 1) else i + 1
        ids.append(v)
        rs.append((child_of if i % 2 else follows_from)(SpanContext(8, v, 0, 0)))
    E.set_clock(lambda: 1.5)
    rep = RecordingReporter()
    sp = make_tracer(reporter=rep).start_span('op', child_of=SpanContext(1, 2, 3, 1), references=rs)
    for i in range(n):
        sp.set_tag('t%d' % i, i)
        sp.log_kv({'l%d' % i: i})
    sp.finish()
    j = one(E, rep.spans[0])
    E.check(len(j.references) == n, 'refs', 'number of references differs')
    for g, v in zip(j.references, ids):
        pattern(E, g.spanId, v, 'refs')
    E.check([(x.key, x.vLong) for x in j.tags] == [('t%d' % i, i) for i in range(n)], 'tags', 'tags differ')
    E.check([[(f.key, f.vLong) for f in x.fields] for x in j.logs] == [[('l%d' % i, i)] for i in range(n)], 'logs', 'logs differ')


def same_key(E):
    """tags and log fields with the same key or value: each is sent, in order"""
    E.set_clock(lambda: 1.5)
    rep = RecordingReporter()
    sp = make_tracer(reporter=rep).start_span('op', child_of=SpanContext(1, 2, 3, 1))
    tags, logs = [], []
    for i in range(3):
        k, v = E.str('k%d' % i, 1, chars=[(0x61, 0x62)]), E.int('v%d' % i, 0, 1)
        sp.set_tag(k, v)
        tags.append((k, v))
    for i in range(2):
        k, v = E.str('lk%d' % i, 1, chars=[(0x61, 0x62)]), E.int('lv%d' % i, 0, 1)
        sp.log_kv({k: v})
        logs.append((k, v))
    sp.finish()
    j = one(E, rep.spans[0])
    E.check(len(j.tags) == 3 and len(j.logs) == 2, 'tags', 'tags or logs lost')
    for g, (k, v) in zip(j.tags, tags):
        E.check(E.And(g.key == k, g.vLong == v), 'tags', 'tags differ')
    for g, (k, v) in zip(j.logs, logs):
        E.check(len(g.fields) == 1 and E.And(g.fields[0].key == k, g.fields[0].vLong == v), 'logs', 'logs differ')


def many(E, how):
    """several spans, each with its own tags, logs and name; order kept"""
    n = E.int('n', 1, 3)
    lp = Loop(E)
    E.set_clock(lambda: 1.5)
    E.set_random(lambda kind, *a: 1234 + len(rep.spans))
    rep = RecordingReporter()
    t = make_tracer(reporter=rep)
    k = 0
    while k < n:
        sp = t.start_span(E.str('op%d' % k, 1), child_of=SpanContext(E.int('tid%d' % k, 1, (1 << 63) - 1), 17 + k, 0, 1))
        for i in range(k):
            sp.set_tag('t%d' % i, E.int('tag%d_%d' % (k, i), -(1 << 63), (1 << 63) - 1))
        for i in range(2 - k):
            sp.log_kv({'l%d' % i: k})
        sp.finish()
        k += 1
    process = thrift.make_process('svc', {'x': 1}, 100)
    if how == 'direct':
        b = thrift.make_jaeger_batch(spans=rep.spans, process=process)
    else:
        E.reach('reporter')
        r = Reporter(channel=Channel(lp.io), io_loop=lp.io, batch_size=3)
        r.set_process('svc', {'x': 1}, 100)
        got = []

        def send(batch):
            got.append(batch)
            f = Future()
            f.set_result(None)
            return f
        r._send = send
        for sp in rep.spans:
            r.report_span(sp)
        r.close()
        lp.run()
        E.check(len(got) == 1, 'spans', 'not one batch')
        b = got[0]
    E.check(b.process.serviceName == 'svc' and len(b.process.tags) == 1 and b.process.tags[0].vLong == 1, 'process', 'process differs')
    E.check(len(b.spans) == len(rep.spans), 'spans', 'number of spans differs')
    for sp, j in zip(rep.spans, b.spans):
        c = sp.context
        trace(E, j.traceIdLow, j.traceIdHigh, c.trace_id)
        pattern(E, j.spanId, c.span_id, 'span-id')
        pattern(E, j.parentSpanId, c.parent_id, 'parent-id')
        E.check(j.operationName == sp.operation_name, 'name', 'operation name differs')
        E.check(j.flags == 1, 'flags', 'flags differ')
        E.check(len(j.tags) == len(sp.tags), 'tags', 'tags lost')
        for x, y in zip(j.tags, sp.tags):
            E.check(E.And(x.key == y.key, x.vLong == y.vLong), 'tags', 'tags differ')
        E.check(len(j.logs) == len(sp.logs), 'logs', 'logs lost')
        for x, y in zip(j.logs, sp.logs):
            E.check(x.timestamp == 1500000 and x.fields[0].key == y.fields[0].key, 'logs', 'logs differ')
    E.reach('many')


def scenarios(tier):
    out = [('ids', ids, dict(parent=True)), ('ids-root', ids, dict(parent=False)), ('times', times, dict(how='direct')), ('times-api', times, dict(how='api')), ('clock', clock, {}), ('same-key', same_key, {}),
           ('many', many, dict(how='direct')), ('many-reporter', many, dict(how='reporter'))]
    out.append(('refs-many', refs_many, dict(n=300)))
    for n in range(4 if tier == 'thorough' else 3):
        out.append(('refs%d' % n, refs, dict(n=n)))
    return out
