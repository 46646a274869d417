"""Helpers shared by the harnesses (symbolic and concrete runs use the same code)."""
from opentracing import Format, SpanContextCorruptedException
from jaeger_client.span_context import SpanContext
from jaeger_client.tracer import Tracer
from jaeger_client.reporter import InMemoryReporter
from jaeger_client.sampler import ConstSampler
from jaeger_client.span import Span

U64 = (1 << 64) - 1
U128 = (1 << 128) - 1
TOKEN = [(0x21, 0x21), (0x23, 0x27), (0x2a, 0x2b), (0x2d, 0x2e), (0x30, 0x39), (0x41, 0x5a), (0x5e, 0x7a), (0x7c, 0x7c), (0x7e, 0x7e)]
LOWER = [(0x30, 0x39), (0x61, 0x7a)]
ASCII = [(0x20, 0x7e)]
AZ = [(0x61, 0x7a)]


class RecordingReporter(object):
    """Collects what reaches the reporter."""

    def __init__(self):
        self.spans = []
        self.process = None
        self.closed = 0

    def set_process(self, service_name, tags, max_length):
        self.process = (service_name, tags, max_length)

    def report_span(self, span):
        self.spans.append(span)

    def close(self):
        self.closed += 1
        from tornado.concurrent import Future
        f = Future()
        f.set_result(True)
        return f


class StubSampler(object):
    """A sampler giving one (symbolic) decision and recording what it was asked."""

    def __init__(self, decision, tags=None):
        self.decision = decision
        self.tags = tags if tags is not None else {'sampler.type': 'stub', 'sampler.param': True}
        self.calls = []
        self.closed = 0

    def is_sampled(self, trace_id, operation=''):
        self.calls.append((trace_id, operation))
        return self.decision, self.tags

    def close(self):
        self.closed += 1


class StubThrottler(object):
    def __init__(self, decision):
        self.decision = decision
        self.calls = []
        self.client_id = None

    def set_client_id(self, client_id):
        self.client_id = client_id

    def is_allowed(self, operation):
        self.calls.append(operation)
        return self.decision

    def close(self):
        pass


def make_tracer(reporter=None, sampler=None, **k):
    return Tracer(service_name='svc', reporter=reporter if reporter is not None else RecordingReporter(),
                  sampler=sampler if sampler is not None else ConstSampler(True), **k)


def sym_context(E, baggage=None, flags_hi=255, name='', pid_lo=0):
    tid = E.int(name + 'trace_id', 1, U128)
    sid = E.int(name + 'span_id', 1, U64)
    pid = E.int(name + 'parent_id', pid_lo, U64)
    fl = E.int(name + 'flags', 0, flags_hi)
    return SpanContext(trace_id=tid, span_id=sid, parent_id=pid, flags=fl, baggage=baggage)


def same_ids(E, got, tid, sid, pid, fl):
    """got carries exactly these ids (parent 0 means none) and flags"""
    E.check(got.trace_id == tid, 'trace-id', 'trace id differs')
    E.check(got.span_id == sid, 'span-id', 'span id differs')
    if got.parent_id is None:
        E.check(pid == 0, 'parent-id', 'parent id lost')
    else:
        E.check(got.parent_id == pid, 'parent-id', 'parent id differs')
    if fl is not None:
        E.check(got.flags == fl, 'flags', 'flags differ')


def same_baggage(E, got, items, label='baggage'):
    """got is a mapping with exactly the (key, value) pairs in items"""
    E.check(len(got) == len(items), label, 'number of baggage items differs')
    for k, v in items:
        if k in got:
            E.check(got[k] == v, label, 'baggage value differs')
        else:
            E.fail(label, 'baggage item lost')


def repeat(E, t, fmt, new_carrier, reuse, flags, baggage, trace=U128, zero=True):
    """Two contexts through the same codec, in one carrier or in two: neither operation remembers anything of an earlier one."""
    ctxs, vals = [], []
    for i in range(2):
        v = dict(tid=E.int('trace_id%d' % i, 1, trace), sid=E.int('span_id%d' % i, 1, U64), pid=E.int('parent_id%d' % i, 0 if zero else 1, U64),
                 fl=E.int('flags%d' % i, 0, flags), items=[])
        if baggage:
            v['items'].append(('k', E.str('val%d' % i, 1, chars=ASCII)))
            if i == 0 and not reuse and E.choose('more', 2):
                v['items'].append(('other', 'x'))
        vals.append(v)
        ctxs.append(SpanContext(trace_id=v['tid'], span_id=v['sid'], parent_id=v['pid'], flags=v['fl'], baggage=dict(v['items'])))
    first = new_carrier()
    t.inject(ctxs[0], fmt, first)
    got = [t.extract(fmt, first)]
    second = first if reuse else new_carrier()
    t.inject(ctxs[1], fmt, second)
    n = len(second)
    got.append(t.extract(fmt, second))
    if not reuse:
        got.append(t.extract(fmt, first))
    E.check(len(second) == n, 'repeat', 'extraction changed the carrier')
    for g, v in zip(got, [vals[0], vals[1], vals[0]]):
        if g is None:
            E.fail('repeat', 'context lost')
            continue
        same_ids(E, g, v['tid'], v['sid'], v['pid'], v['fl'])
        same_baggage(E, g.baggage, v['items'])
    for c, v in zip(ctxs, vals):
        same_ids(E, c, v['tid'], v['sid'], v['pid'], v['fl'])
        same_baggage(E, c.baggage, v['items'])


def http_error(code):
    try:
        from tornado.httpclient import HTTPError
    except ImportError:
        from tornado.simple_httpclient import HTTPError
    return HTTPError(code)


def coded(code):
    e = RuntimeError('answer')
    e.code = e.response = code
    return e
