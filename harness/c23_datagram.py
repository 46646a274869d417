"""C23 each batch is one decodable datagram, and failures stay isolated."""
import socket
from opentracing import child_of, follows_from
from thrift.protocol.TCompactProtocol import TCompactProtocol
from thrift.transport.TTransport import TMemoryBuffer
from thrift.Thrift import TMessageType
from jaeger_client.local_agent_net import LocalAgentSender
from jaeger_client.reporter import Reporter
from jaeger_client.thrift_gen.agent import Agent
from harness.common import *
from harness.vloop import Loop, Counters, Future

BOUNDS = ('one symbolic field at a time: trace id below 2^140, span, parent and reference ids below 2^70, flags below 2^70, integer tags in [-2^70, 2^70], float tags: every binary64, text tags, tag keys, operation names, log values and '
          'baggage of up to 2 Unicode characters (lone surrogates included); the other fields fixed; names that are no text; three consecutive batches each sent, refused by the socket at once, or failing half-way through encoding; batch sizes 1..3; '
          'message counters up to 3; buffers of every length up to 2^20 handed to the socket; two batches of up to 140 kB')
ASSUMPTIONS = ['the socket is replaced by a recorder; a datagram is decoded with the Thrift compact protocol of the installed library', 'times are finite and below 9e12 seconds', 'characters that UTF-8 cannot represent may be replaced']
REACH = ['ids', 'tag', 'text', 'fault', 'encode', 'counter', 'odd']
M64 = U64


class Sock(object):
    sent = []
    fail = []

    def __init__(self, *a, **k):
        pass

    def setblocking(self, b):
        pass
    settimeout = setblocking

    def setsockopt(self, *a):
        pass

    def connect(self, a):
        self.addr = a

    def send(self, buf):
        return self.sendto(buf, self.addr)

    def sendto(self, buf, *addr):
        if Sock.fail:
            e = Sock.fail.pop(0)
            if e is not None:
                raise e
        Sock.sent.append((buf, addr[-1]))
        return buf.hi - buf.lo if isinstance(buf, Buf) else len(buf)

    def fileno(self):
        return -1

    def close(self):
        pass


class Out(object):
    """a reporter writing to a recorded socket"""

    def __init__(self, E, batch=1):
        self.E = E
        Sock.sent, Sock.fail = [], []
        self.lp = Loop(E)
        E.set_clock(lambda: 1.5)
        real, info = socket.socket, socket.getaddrinfo
        socket.socket = Sock
        socket.getaddrinfo = lambda *a, **k: [(2, 2, 17, '', ('127.0.0.1', 6831))]
        try:
            self.ch = LocalAgentSender('localhost', 5778, 6831, io_loop=self.lp.io)
        finally:
            socket.socket, socket.getaddrinfo = real, info
        self.m = Counters()
        self.r = Reporter(channel=self.ch, io_loop=self.lp.io, batch_size=batch, metrics_factory=self.m)
        self.r.set_process('svc', {'pt': 'pv'}, 100)
        E.set_random(lambda kind, *a: 99)
        self.t = make_tracer(reporter=self.r)
        self.r.set_process('svc', {'pt': 'pv'}, 100)
        self.lp.run()

    def results(self):
        return [self.m.get('jaeger:reporter_spans', result=x) for x in ('ok', 'err', 'dropped')]

    def decode(self, k):
        """the batch in datagram k, and nothing else"""
        E = self.E
        buf, addr = Sock.sent[k]
        E.check(addr[1] == 6831, 'address', 'sent to another port')
        tr = TMemoryBuffer(buf)
        p = TCompactProtocol(tr)
        args = Agent.emitBatch_args()
        try:
            name, typ, seq = p.readMessageBegin()
            args.read(p)
            p.readMessageEnd()
        except Exception as e:
            E.fail('decode', 'the datagram does not decode: %s %s' % (type(e).__name__, e))
            return None
        E.check(name == 'emitBatch', 'decode', 'another message')
        E.check(typ == TMessageType.ONEWAY, 'decode', 'not a one-way message')
        E.check(len(tr.read(1)) == 0, 'decode', 'bytes follow the batch')
        b = args.batch
        E.check(b is not None and b.process is not None and b.spans is not None, 'decode', 'fields missing')
        E.check(b.process.serviceName == 'svc' and [(x.key, x.vStr) for x in b.process.tags] == [('pt', 'pv')], 'decode', 'process differs')
        return b


def pattern(E, got, want, label):
    w = want & M64
    E.check(E.Or(got == w, got == w - (1 << 64)), label, 'id differs')


def base(o, tid=5, sid=6, pid=7, fl=1, op='op', refs=None):
    return Span(SpanContext(tid, sid, pid, fl), o.t, op, start_time=1.25, references=refs)


def emit(E, o, sp):
    """report the span; the decoded one"""
    sp.finish(2.5)
    o.lp.run()
    E.check(len(Sock.sent) == 1, 'one', '%d datagrams for one batch' % len(Sock.sent))
    E.check(o.results() == [1, 0, 0], 'counted', 'counted as %s' % o.results())
    b = o.decode(0)
    E.check(len(b.spans) == 1, 'decode', 'number of spans differs')
    j = b.spans[0]
    E.check(j.startTime == 1250000 and j.duration == 1250000, 'times', 'times differ')
    return j


def field(E, which):
    o = Out(E)
    E.reach('ids')
    if which == 'trace':
        v = E.int('v', 1, (1 << 140) - 1)
        j = emit(E, o, base(o, tid=v))
        pattern(E, j.traceIdLow, v, 'trace-id')
        pattern(E, j.traceIdHigh, v >> 64, 'trace-id')
    elif which == 'span':
        v = E.int('v', 1, (1 << 70) - 1)
        pattern(E, emit(E, o, base(o, sid=v)).spanId, v, 'span-id')
    elif which == 'parent':
        v = E.int('v', 0, (1 << 70) - 1)
        pattern(E, emit(E, o, base(o, pid=v)).parentSpanId, v, 'parent-id')
    elif which == 'flags':
        v = E.int('v', 0, (1 << 70) - 1)
        E.assume(v & 1 == 1)
        j = emit(E, o, base(o, fl=v))
        E.check(j.flags & 0xff == v & 0xff, 'flags', 'flags differ')
        if v < (1 << 31):
            E.check(j.flags == v, 'flags', 'flags differ')
    else:
        v = E.int('v', 1, (1 << 70) - 1)
        if which == 'ref-trace':
            c = SpanContext(v, 9, 0, 0)
        else:
            c = SpanContext(8, v, 0, 0)
        j = emit(E, o, base(o, refs=[child_of(c), follows_from(SpanContext.with_debug_id('x'))]))
        E.check(len(j.references) == 1, 'refs', 'number of references differs')
        pattern(E, j.references[0].traceIdLow, c.trace_id, 'refs')
        pattern(E, j.references[0].traceIdHigh, c.trace_id >> 64, 'refs')
        pattern(E, j.references[0].spanId, c.span_id, 'refs')


def tag(E, which, where):
    o = Out(E)
    E.reach('tag')
    sp = base(o)
    if which == 'int':
        v = E.int('v', -(1 << 70), 1 << 70)
    elif which == 'float':
        v = E.float('v', nan=True, inf=True)
    else:
        v = E.bool('v')
    if where == 'tag':
        sp.set_tag('k', v)
        sp.set_tag('last', 5)
        j = emit(E, o, sp)
        tags = j.tags
    else:
        sp.log_kv({'k': v, 'last': 5})
        j = emit(E, o, sp)
        E.check(len(j.logs) == 1, 'tags', 'log lost')
        tags = j.logs[0].fields
    E.check(len(tags) == 2, 'tags', 'number of tags differs')
    t = tags[0]
    E.check(t.key == 'k', 'tags', 'key differs')
    E.check(tags[1].vLong == 5, 'tags', 'tag after it differs')
    if which == 'int':
        if E.And(v >= -(1 << 63), v < (1 << 63)):
            E.check(t.vLong == v, 'tags', 'value differs')
        else:
            E.check(t.vStr == str(v), 'tags', 'value differs')
    elif which == 'float':
        E.check(E.Or(t.vDouble == v, E.And(E.isnan(v), E.isnan(t.vDouble))), 'tags', 'value differs')
    else:
        E.check(t.vBool == v, 'tags', 'value differs')


def texts(E, which, n):
    o = Out(E)
    E.reach('text')
    v = E.str('v', n)
    sp = base(o, op=v if which == 'name' else 'op')
    if which == 'value':
        sp.set_tag('k', v)
    elif which == 'key':
        sp.set_tag(v, 'x')
    elif which == 'log':
        sp.log_kv({'k': v})
    elif which == 'baggage':
        sp.set_baggage_item('k', v)
    j = emit(E, o, sp)
    if which == 'value':
        got = j.tags[0].vStr
    elif which == 'key':
        got = j.tags[0].key
        E.check(j.tags[0].vStr == 'x', 'text', 'value differs')
    elif which == 'log':
        got = j.logs[0].fields[0].vStr
    elif which == 'baggage':
        got = [f.vStr for f in j.logs[0].fields if f.key == 'value'][0]
    else:
        got = j.operationName
    sur = False
    for c in v:
        if E.And(c >= u'\ud800', c <= u'\udfff'):
            sur = True
    if not sur:
        E.check(got == v, 'text', 'text differs')


def odd(E):
    """values no one should use, next to a normal span in the same batch"""
    o = Out(E, batch=2)
    E.reach('odd')
    first = E.choose('first', 2)
    good = base(o, sid=11)
    good.set_tag('k', 'v')
    name = E.pick('name', ['op', 5, None, b'x', ('a',), u'\ud800', u'\u00e9\U0001f600'])
    tid, sid, pid, fl = E.pick('ids', [(1, 2, 3, 1), (U128, U64, U64, 0x7fffffff), (1 << 200, 2, 3, 1), (1, 1 << 64, 3, 1), (1, 2, 1 << 64, 3), (1, 2, None, (1 << 64) + 1), (1, 1 << 90, 0, 0x80000001)])
    bad = Span(SpanContext(tid, sid, pid, fl), o.t, name, start_time=1.25)
    bad.set_tag('k', E.pick('tag', [1, 1 << 63, -(1 << 64), float('nan'), u'\udfff', None, [1], b'\xff']))
    for sp in ([bad, good] if first else [good, bad]):
        sp.finish(2.5)
    o.lp.run()
    E.check(len(Sock.sent) == 1, 'odd', 'the batch is not sent')
    E.check(o.results() == [2, 0, 0], 'counted', 'counted as %s' % o.results())
    b = o.decode(0)
    E.check(len(b.spans) == 2, 'odd', 'a span is lost')
    g = b.spans[1 if first else 0]
    E.check(g.spanId == 11 and [(x.key, x.vStr) for x in g.tags] == [('k', 'v')], 'odd', 'the other span is damaged')


class Buf(object):
    """a buffer of a symbolic length of which only the extent matters"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __len__(self):
        return self.hi - self.lo

    def __getitem__(self, k):
        if not isinstance(k, slice):
            return 120
        n = self.hi - self.lo
        a = 0 if k.start is None else k.start
        b = n if k.stop is None else k.stop
        a, b = a + n if a < 0 else a, b + n if b < 0 else b
        b = n if b > n else b
        return Buf(self.lo + a, self.lo + (a if b < a else b))

    def __bytes__(self):
        return self


def whole(E):
    """whatever its length, a buffer is handed to the socket whole and once"""
    from jaeger_client.TUDPTransport import TUDPTransport
    real, info = socket.socket, socket.getaddrinfo
    socket.socket = Sock
    socket.getaddrinfo = lambda *a, **k: [(2, 2, 17, '', ('127.0.0.1', 6831))]
    Sock.sent, Sock.fail = [], []
    try:
        tr = TUDPTransport('localhost', 6831)
    finally:
        socket.socket, socket.getaddrinfo = real, info
    n = E.int('length', 1, 1 << 20)
    tr.write(Buf(0, n) if E.symbolic else b'x' * n)
    E.check(len(Sock.sent) == 1, 'one', '%d datagrams for one batch' % len(Sock.sent))
    b = Sock.sent[0][0]
    if E.symbolic and isinstance(b, Buf):
        E.check(E.And(b.lo == 0, b.hi == n), 'one', 'not the whole batch')
    else:
        E.check(len(b) == n, 'one', 'not the whole batch')


def large(E):
    """a batch near or above the size the kernel takes: one datagram or a counted failure"""
    o = Out(E, batch=2)
    o.r.set_process('svc', {'pt': 'pv'}, 1 << 20)
    sizes = [0, 100, 4000, 60000, 64900, 65100, 65300, 70000, 140000]
    for i in range(2):
        n = E.pick('size%d' % i, sizes)
        o.t.max_tag_value_length = 1 << 20
        before, sent = o.results(), len(Sock.sent)
        if n > 65507:
            Sock.fail = [socket.error(90, 'message too long')] * 1
        for k in (0, 1):
            sp = base(o, sid=100 * i + k + 1)
            sp.set_tag('k', 'x' * (n if k == 0 else 3))
            sp.finish(2.5)
        o.lp.run()
        Sock.fail = []
        ok = n <= 65507
        E.check(len(Sock.sent) == sent + (1 if ok else 0), 'one', '%d datagrams for one batch' % (len(Sock.sent) - sent))
        E.check(o.results() == [before[0] + (2 if ok else 0), before[1] + (0 if ok else 2), 0], 'counted', 'counted as %s' % o.results())
        if ok:
            b = o.decode(sent)
            E.check([x.spanId for x in b.spans] == [100 * i + 1, 100 * i + 2], 'isolated', 'the datagram holds other spans')
            E.check(len(b.spans[0].tags[0].vStr) == n, 'text', 'text cut')


def faults(E, n):
    """every batch is sent, refused by the socket, or fails while it is encoded: the others are unaffected"""
    size = E.int('batch', 1, 2)
    o = Out(E, batch=size)
    exp, ids = [], 0
    ok = err = 0
    for i in range(n):
        how = E.pick('how%d' % i, ['ok', 'socket', 'error', 'encode', 'build'])
        mine = []
        k = 0
        while k < size:
            k += 1
            ids += 1
            sp = base(o, sid=ids)
            sp.set_tag('k', 'v%d' % ids)
            if k == size and how in ('encode', 'build'):
                E.reach('encode')
                sp.start_time = 1e300 if how == 'encode' else float('nan')
                sp.operation_name = 'f' * 900
            mine.append(ids)
            if how in ('socket', 'error') and k == size:
                E.reach('fault')
                Sock.fail = [socket.error(90, 'message too long') if how == 'socket' else ValueError('boom')]
            sp.finish(2.5)
        o.lp.run()
        Sock.fail = []
        if how == 'ok':
            exp.append(mine)
            ok += len(mine)
        else:
            err += len(mine)
        E.check(len(Sock.sent) == len(exp), 'one', '%d datagrams for %d batches' % (len(Sock.sent), len(exp)))
        E.check(o.results() == [ok, err, 0], 'counted', 'counted as %s instead of %s' % (o.results(), [ok, err, 0]))
        if how == 'ok':
            b = o.decode(len(exp) - 1)
            E.check([s.spanId for s in b.spans] == mine, 'isolated', 'the datagram holds other spans')
            E.check([s.tags[0].vStr for s in b.spans] == ['v%d' % x for x in mine], 'isolated', 'tags differ')
    E.reach('counter')
    E.check(not o.lp.errors, 'raises', o.lp.errors[0] if o.lp.errors else '')


def scenarios(tier):
    deep = tier == 'thorough'
    out = [('field-' + w, field, dict(which=w)) for w in ('trace', 'span', 'parent', 'flags', 'ref-trace', 'ref-span')]
    out += [('%s-%s' % (wh, w), tag, dict(which=w, where=wh)) for w in ('int', 'float', 'bool') for wh in ('tag', 'log')]
    for w in ('name', 'value', 'key', 'log', 'baggage'):
        for n in range(1, 4 if deep else 3):
            out.append(('text-%s%d' % (w, n), texts, dict(which=w, n=n)))
    out += [('odd', odd, {}), ('whole', whole, {}), ('large', large, {})]
    out.append(('faults', faults, dict(n=4 if deep else 3)))
    return out
