"""C24 the reporter accounts for every span exactly once."""
import socket
from jaeger_client.reporter import Reporter
from harness.common import *
from harness.vloop import Loop, Channel, Counters, Future

THREADS = True
BOUNDS = ('histories of 5 (thorough 7 with late sends, 6 otherwise) events out of: report a span, let one loop callback run, let the loop settle, let the flush interval pass, complete or fail the pending send, close; '
          'batch size 1..3, queue capacity from the batch size to 4 (all symbolic); sends that succeed or fail (socket error, other error) at once or later; then a final drain and a second close; '
          '3 spans and 2 closes while sends are under way; a separate run of up to 9 spans in bursts of symbolic size; a reporter without process; a batch that cannot be built; one or two threads reporting one or two spans each while the loop thread sends, flushes or closes, or while another thread replaces the process, every schedule with at most 2 (thorough 3) preemptions')
ASSUMPTIONS = ['Reporter._send is replaced by a recorder whose outcome the solver chooses (the encoder and the socket are C23)', 'the event loop is the real tornado loop and queue on virtual time', 'a preemption happens only where the code accesses an attribute or container that some code changes, or takes a lock; the queue of tornado is used by one thread only (checked) and is not preempted inside']
REACH = ['full', 'flush', 'failed', 'late', 'second close', 'batch', 'noprocess', 'thread']
BUDGET = {'quick': 240, 'thorough': 800}


class Rep(object):
    def __init__(self, E, batch, cap, interval, process=True):
        self.E = E
        self.lp = Loop(E)
        self.m = Counters()
        self.r = Reporter(channel=Channel(self.lp.io), io_loop=self.lp.io, batch_size=batch, queue_capacity=cap, flush_interval=interval, metrics_factory=self.m)
        self.batch, self.cap = batch, cap
        if process:
            self.r.set_process('svc', {}, 100)
        self.r._send = self.send
        self.tracer = make_tracer()
        self.n = 0          # spans reported
        self.sent = []      # [ids, future, outcome]
        self.mode = 'later'
        self.lp.run()

    def send(self, batch):
        f = Future()
        rec = [[s.spanId for s in batch.spans], f, None]
        self.E.check(len(rec[0]) >= 1, 'batch', 'empty batch')
        self.E.check(len(rec[0]) <= self.batch, 'batch', 'batch larger than configured')
        for old in self.sent:
            self.E.check(old[2] is not None, 'batch', 'two sends at once')
        self.sent.append(rec)
        if self.mode == 'raise':
            rec[2] = 'err'
            raise socket.error(90, 'message too long')
        if self.mode != 'later':
            self.finish(self.mode)
        return f

    def pending(self):
        return self.sent[-1] if self.sent and self.sent[-1][2] is None else None

    def finish(self, how):
        rec = self.sent[-1]
        rec[2] = 'ok' if how == 'ok' else 'err'
        if how == 'ok':
            rec[1].set_result(None)
        elif how == 'socket':
            rec[1].set_exception(socket.error(111, 'refused'))
        else:
            rec[1].set_exception(ValueError('boom'))

    def report(self):
        self.n += 1
        sp = Span(SpanContext(1, self.n, 0, 1), self.tracer, 'op', start_time=1.0)
        sp.end_time = 2.0
        sp.finished = True
        self.r.report_span(sp)

    def count(self, result):
        return self.m.get('jaeger:reporter_spans', result=result)

    def taken(self):
        return [i for rec in self.sent for i in rec[0]]

    def order(self):
        t = self.taken()
        self.E.check(t == sorted(set(t)), 'order', 'spans sent twice or out of order: %s' % t)

    def invariant(self, late=0):
        E = self.E
        ok = sum(len(r[0]) for r in self.sent if r[2] == 'ok')
        err = sum(len(r[0]) for r in self.sent if r[2] == 'err')
        dropped = self.count('dropped')
        E.check(self.count('ok') <= ok, 'counted', 'too many spans counted as sent')
        E.check(self.count('err') <= err, 'counted', 'too many spans counted as failed')
        E.check(len(self.taken()) + dropped <= self.n, 'counted', 'a span is both sent and dropped')
        self.order()


def drain(rep, fut, late):
    """complete everything, close, and check the books"""
    E, lp = rep.E, rep.lp
    lp.run()
    rep.mode = 'ok'
    n = 0
    while rep.pending() is not None and n < 20:
        rep.finish('ok')
        lp.run()
        n += 1
    if fut is None:
        fut = rep.r.close()
        lp.run()
    E.check(fut.done(), 'close', 'close does not complete')
    E.check(fut.exception() is None, 'close', 'close fails')
    ok = sum(len(r[0]) for r in rep.sent if r[2] == 'ok')
    err = sum(len(r[0]) for r in rep.sent if r[2] == 'err')
    E.check(rep.count('ok') == ok, 'counted', 'spans sent %s, counted %s' % (ok, rep.count('ok')))
    E.check(rep.count('err') == err, 'counted', 'spans failed %s, counted %s' % (err, rep.count('err')))
    E.check(rep.count('dropped') == rep.n - ok - err, 'counted', 'reported %s, sent %s, failed %s, dropped %s' % (rep.n, ok, err, rep.count('dropped')))
    rep.order()
    # after close, spans are dropped
    before = rep.count('dropped')
    rep.report()
    lp.run()
    lp.advance(50.0)
    E.check(rep.count('dropped') == before + 1, 'late', 'a span reported after close is not dropped')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')
    f2 = rep.r.close()
    lp.run()
    E.check(f2.done(), 'close', 'a second close does not complete')
    E.reach('second close')


def history(E, steps, mode, first=None):
    batch = E.int('batch', 1, 3)
    cap = E.int('cap', 1, 4)
    E.assume(cap >= batch)
    rep = Rep(E, batch, cap, 5.0)
    rep.mode = mode
    lp = rep.lp
    fut = None
    late = None       # number of spans reported before close
    settled_at = None
    for i in range(steps):
        acts = ['report', 'burst', 'wait']
        if len(lp.v.ready) > 1:
            acts.append('one')
        if rep.pending() is not None:
            acts += ['ok', 'err']
        if fut is None and i > 0:
            acts.append('close')
        a = E.pick('step%d' % i, acts)
        dropped = rep.count('dropped')
        out = rep.n - len(rep.taken()) - dropped
        if a == 'report':
            rep.report()
            lp.run()
            if rep.count('dropped') > dropped and fut is None:
                E.reach('full')
                E.check(out >= cap, 'dropped', 'span dropped although the queue is not full')
        elif a == 'burst':
            rep.report()     # the loop does not run in between
        elif a == 'one':
            lp.step()
        elif a == 'wait':
            lp.advance(5.0)
            if fut is None and rep.pending() is None:
                E.reach('flush')
                E.check(len(rep.taken()) + rep.count('dropped') == rep.n, 'flush', 'spans not flushed after the interval')
        elif a in ('ok', 'err'):
            rep.finish('ok' if a == 'ok' else 'socket')
            if a == 'err':
                E.reach('failed')
            lp.run()
        else:
            late = rep.n
            fut = rep.r.close()
        E.check(rep.n - len(rep.taken()) - rep.count('dropped') <= cap + batch + len(lp.v.ready) + 1, 'bounded', 'more spans wait than the queue holds')
        if fut is not None and fut.done():
            gone = sum(len(r[0]) for r in rep.sent if r[2] is not None)
            E.check(gone + rep.count('dropped') >= late, 'close', 'close completed before all spans were sent')
        rep.invariant()
    if late is not None:
        E.reach('late')
    drain(rep, fut, late)
    if late is not None:
        t = rep.taken()
        E.check(not t or t[-1] <= late, 'late', 'a span reported after close was sent')


def burst(E, mode):
    """n spans at once, then a full batch leaves without waiting for the interval; the queue capacity is usable"""
    batch = E.int('batch', 1, 4)
    cap = E.int('cap', 1, 6)
    E.assume(cap >= batch)
    rep = Rep(E, batch, cap, 5.0)
    rep.mode = mode
    n = E.int('n', 1, 9)
    k = 0
    while k < n:
        rep.report()
        k += 1
    rep.lp.run()
    dropped = rep.count('dropped')
    E.check(dropped == 0 or n > cap, 'dropped', 'spans dropped although the queue holds them')
    # a full batch leaves at once
    waiting = rep.n - dropped - len(rep.taken())
    if rep.pending() is None:
        E.reach('batch')
        E.check(waiting < batch, 'batch', 'a full batch is not sent')
    if waiting == 0:
        E.check(True, 'flush', '')
    q = rep.n - dropped
    k = 0
    rep.mode = 'ok' if mode == 'later' else mode
    while rep.pending() is not None and k < 12:
        rep.finish('ok')
        rep.lp.run()
        k += 1
    rep.lp.advance(5.0)
    E.check(len(rep.taken()) == q, 'flush', 'accepted spans not sent')
    ids = rep.taken()
    sizes = [len(r[0]) for r in rep.sent]
    for s in sizes[:-1]:
        E.check(s == batch, 'batch', 'a batch is sent before it is full')
    # later spans are still sent
    rep.mode = 'ok'
    rep.report()
    rep.lp.advance(5.0)
    E.check(len(rep.taken()) == q + 1, 'failed', 'spans are no longer sent')
    E.reach('failed')
    drain(rep, None, None)


def timer(E):
    """a partial batch leaves when the interval has passed, not before; the interval is arbitrary; without an interval it leaves at close"""
    interval = E.real('interval', 0, 100, lo_open=True)
    rep = Rep(E, 3, 10, interval)
    rep.mode = 'ok'
    n = E.int('n', 1, 2)
    k = 0
    while k < n:
        rep.report()
        k += 1
    rep.lp.run()
    E.check(not rep.sent, 'flush', 'a partial batch leaves at once')
    t0 = rep.lp.now
    E.check(rep.lp.fire(), 'flush', 'no flush is scheduled')
    E.check(rep.sent, 'flush', 'the flush does not send')
    d = rep.lp.now - t0
    E.check(E.And(d <= interval + 1e-6, d >= interval - 1e-6), 'flush', 'flush at another time than the interval')
    drain(rep, None, None)


def nointerval(E):
    rep = Rep(E, 3, 10, E.pick('interval', [0, None, 0.0]))
    rep.mode = 'ok'
    rep.report()
    rep.lp.advance(1000.0)
    E.check(not rep.sent, 'flush', 'flushed without an interval')
    drain(rep, None, None)
    E.check(rep.taken() == [1], 'flush', 'not sent at close')


def trouble(E, kind):
    """no process, or a span that cannot be converted: counted, and later spans are sent"""
    batch = E.int('batch', 1, 3)
    rep = Rep(E, batch, 10, 5.0, process=(kind != 'noprocess'))
    rep.mode = 'ok'
    n = E.int('n', 1, 4)
    bad = E.int('bad', 1, 4)
    k = 0
    while k < n:
        k += 1
        if kind == 'bad' and bad == k:
            rep.n += 1
            rep.r.report_span(object())
        else:
            rep.report()
    rep.lp.advance(5.0)
    rep.lp.advance(5.0)
    total = rep.count('ok') + rep.count('err') + rep.count('dropped')
    E.check(total == n, 'counted', 'reported %s, counted %s' % (n, total))
    if kind == 'noprocess':
        E.reach('noprocess')
        rep.r.set_process('svc', {}, 100)
    rep.report()
    rep.lp.advance(5.0)
    E.check(rep.n in rep.taken(), 'failed', 'spans are no longer sent')
    total = rep.count('ok') + rep.count('err') + rep.count('dropped')
    E.check(total == n + 1, 'counted', 'reported %s, counted %s' % (n + 1, total))
    f = rep.r.close()
    rep.lp.run()
    E.check(f.done(), 'close', 'close does not complete')
    E.check(not rep.lp.errors, 'raises', rep.lp.errors[0] if rep.lp.errors else '')


def threads(E, spans, close, bound):
    """spans reported in several threads while the loop thread works: each is accounted for once, none is lost"""
    batch = E.int('batch', 1, 2)
    rep = Rep(E, batch, 2 if E.choose('small', 2) else 8, 5.0)
    rep.mode = 'ok'
    lp = rep.lp
    fut = []
    made = []
    for i in range(sum(spans)):
        rep.n += 1
        sp = Span(SpanContext(1, rep.n, 0, 1), rep.tracer, 'op', start_time=1.0)
        sp.end_time, sp.finished = 2.0, True
        made.append(sp)
    parts, k = [], 0
    for n in spans:
        parts.append(made[k:k + n])
        k += n

    def loop():
        for i in range(2):
            lp.run()
            E.pause('loop')
            if i == 0 and close:
                lp.io.add_callback(lambda: fut.append(rep.r.close()))
        lp.run()
    ts = lp.threads(E, loop, [lambda p=p: [rep.r.report_span(s) for s in p] for p in parts], bound)
    for t in ts:
        E.check(t.exc is None, 'raises', 'raises %s' % (type(t.exc).__name__,))
    E.reach('thread')
    lp.run()
    lp.advance(5.0)
    sent = rep.taken()
    E.check(len(sent) == len(set(sent)), 'order', 'a span is sent twice: %s' % sent)
    k = 0
    for n in spans:
        mine = [i for i in sent if k < i <= k + n]
        E.check(mine == sorted(mine), 'order', 'spans of one thread out of order')
        k += n
    E.check(rep.count('ok') == len(sent), 'counted', 'sent %s, counted %s' % (len(sent), rep.count('ok')))
    E.check(rep.count('ok') + rep.count('dropped') == rep.n, 'counted', 'reported %s, sent %s, dropped %s' % (rep.n, rep.count('ok'), rep.count('dropped')))
    if not close and sum(spans) <= rep.r.queue_capacity:
        E.check(rep.count('dropped') == 0, 'dropped', 'span dropped although the queue is not full')
    for f in fut:
        E.check(f.done(), 'close', 'close does not complete')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')
    f = rep.r.close()
    lp.run()
    E.check(f.done(), 'close', 'close does not complete')


def process(E, bound):
    """the process is replaced while batches leave: each batch names one process completely"""
    rep = Rep(E, 1, 8, 5.0)
    rep.mode = 'ok'
    got = []
    send = rep.send

    def spy(batch):
        got.append((batch.process.serviceName, [(t.key, t.vStr) for t in batch.process.tags]))
        return send(batch)
    rep.r._send = spy
    lp = rep.lp
    rep.report()
    rep.report()
    ts = lp.threads(E, lp.run, [lambda: rep.r.set_process('two', {'k': 'v2'}, 100)], bound)
    for t in ts:
        E.check(t.exc is None, 'raises', 'raises %s' % (type(t.exc).__name__,))
    rep.report()
    lp.advance(5.0)
    E.check(len(got) == 3, 'counted', 'sent %d batches' % len(got))
    for g in got:
        E.check(g in (('svc', []), ('two', [('k', 'v2')])), 'process', 'a batch names process %s' % (g,))
    E.check(got[2][0] == 'two', 'process', 'the new process is not used')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')


def closes(E, n):
    """several closes while sends are under way: none completes before all spans reported before are through"""
    batch = E.int('batch', 1, 2)
    rep = Rep(E, batch, 4, 5.0)
    lp = rep.lp
    for k in range(n):
        rep.report()
        if k == 0:
            lp.run()
    futs = []
    total = rep.n
    for i in range(5):
        a = E.pick('step%d' % i, (['close'] if len(futs) < 2 else []) + (['ok', 'err'] if rep.pending() is not None else ['run']))
        if a == 'close':
            futs.append(rep.r.close())
        elif a != 'run':
            rep.finish('ok' if a == 'ok' else 'socket')
        lp.run()
        for f in futs:
            if f.done():
                gone = sum(len(r[0]) for r in rep.sent if r[2] is not None)
                E.check(gone + rep.count('dropped') >= total, 'close', 'close completed before all spans were sent')
    drain(rep, futs[0] if futs else None, None)
    for f in futs:
        E.check(f.done(), 'close', 'close does not complete')


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for mode in ('later', 'ok', 'raise', 'socket', 'error'):
        out.append(('history-' + mode, history, dict(steps=(7 if mode == 'later' else 6) if deep else 5, mode=mode)))
        out.append(('burst-' + mode, burst, dict(mode=mode)))
    out.append(('closes', closes, dict(n=3)))
    out.append(('timer', timer, {}))
    out.append(('nointerval', nointerval, {}))
    out.append(('noprocess', trouble, dict(kind='noprocess')))
    out.append(('badspan', trouble, dict(kind='bad')))
    b = 3 if deep else 2
    for spans in [(1,), (2,), (1, 1)] + ([(2, 1)] if deep else []):
        for close in (0, 1):
            out.append(('threads-%s%s' % (''.join(map(str, spans)), '-close' if close else ''), threads, dict(spans=spans, close=close, bound=b)))
    out.append(('process', process, dict(bound=b)))
    return out
