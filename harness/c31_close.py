"""C31 closing a tracer stops all background polling."""
from jaeger_client.sampler import RemoteControlledSampler, AdaptiveSampler
from jaeger_client.throttler import RemoteThrottler
from jaeger_client.reporter import Reporter
from harness.common import *
from harness.vloop import Loop, Channel, Counters, Response

THREADS = True
BOUNDS = ('a remote sampler, a remote throttler, or a tracer with both and a real reporter; the start-up delay is any real in [0, interval), the interval one of 3 values; histories of 9 (thorough 11) events out of: '
          'run one loop callback, fire the next timer, answer or fail a pending request, ask for a decision, close (twice), the throttler with or without an operation asked for before; then three intervals after close; close of a sampler or throttler in another thread (or in two) while the loop runs its start-up steps or a timer, every schedule with at most 2 (thorough 3) preemptions')
ASSUMPTIONS = ['the agent channel is a stub', 'virtual time as exact reals', 'a preemption happens only where the code accesses an attribute or container that some code changes, or takes a lock',
               'a tracer is closed in a thread that has an event loop (its futures need one)']
REACH = ['before start', 'in delay', 'polling', 'twice', 'rhythm', 'thread']
EPS = 1e-6


class Sut(object):
    def __init__(self, E, kind, interval, idle=False):
        self.E, self.kind, self.interval = E, kind, interval
        self.lp = Loop(E, start=0.0)
        E.symbolic_random(real=True)
        self.ch = Channel(self.lp.io)
        self.s = self.t = self.tracer = None
        if kind in ('sampler', 'tracer'):
            self.s = RemoteControlledSampler(self.ch, 'svc', sampling_refresh_interval=interval, max_operations=3)
        if kind in ('throttler', 'tracer'):
            self.t = RemoteThrottler(self.ch, 'svc', refresh_interval=interval)
            if not idle:
                self.t.is_allowed('op')
        if kind == 'tracer':
            E.symbolic_random(real=True)
            rep = Reporter(channel=self.ch, io_loop=self.lp.io)
            self.tracer = make_tracer(reporter=rep, sampler=self.s, throttler=self.t)
        self.seen = 0
        self.times = {'s': [], 't': []}
        self.futs = []

    def watch(self):
        while len(self.times['s']) < len(self.ch.sampling):
            self.times['s'].append(self.lp.now)
        while len(self.times['t']) < len(self.ch.credits):
            self.times['t'].append(self.lp.now)

    def requests(self):
        return len(self.ch.sampling) + len(self.ch.credits)

    def pending(self):
        return [f for _, f in self.ch.sampling if not f.done()] + [c[3] for c in self.ch.credits if not c[3].done()]

    def close(self):
        if self.tracer is not None:
            self.futs.append(self.tracer.close())
        elif self.s is not None:
            self.s.close()
        else:
            self.t.close()


def history(E, kind, steps, idle=False):
    interval = E.pick('interval', [60, 0.5])
    u = Sut(E, kind, interval, idle)
    lp = u.lp
    closed = None
    nclose = 0
    for i in range(steps):
        acts = []
        if lp.v.ready:
            acts.append('one')
        elif lp.next_timer() is not None:
            acts.append('fire')
        if u.pending():
            acts += ['ok', 'fail']
        if nclose < 2 and (i or kind == 'tracer'):
            acts.append('close')
        if not acts:
            break
        a = E.pick('step%d' % i, acts) if len(acts) > 1 else acts[0]
        if a == 'one':
            lp.step()
        elif a == 'fire':
            lp.fire(settle=False)
        elif a == 'ok':
            f = u.pending()[0]
            body = b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.0}}' if any(f is x[1] for x in u.ch.sampling) else b'{"balances": [{"operation": "op", "balance": 2}]}'
            f.set_result(Response(body))
        elif a == 'fail':
            u.pending()[0].set_exception(OSError(111, 'refused'))
        else:
            u.close()
            nclose += 1
            if closed is None:
                closed = u.requests()
                E.reach('polling' if closed else 'in delay' if lp.next_timer() is not None else 'before start')
            else:
                E.reach('twice')
        u.watch()
        if closed is not None:
            E.check(u.requests() == closed, 'quiet', 'the agent is asked after close')
    if closed is None:
        lp.run()
        u.watch()
        closed = u.requests()
        u.close()
    lp.run()
    if u.s is not None:
        u.s.is_sampled(1, 'op')
    if u.t is not None:
        u.t.is_allowed('other')
    end = lp.now + 3 * interval + 1
    n = 0
    while n < 12:
        lp.run()
        t = lp.next_timer()
        if t is None or t[0] > end:
            break
        lp.fire()
        n += 1
    E.check(u.requests() == closed, 'quiet', 'the agent is asked after close')
    for f in u.pending():
        f.set_exception(OSError(111, 'refused'))
    lp.run()
    E.check(u.requests() == closed, 'quiet', 'the agent is asked after close')
    for f in u.futs:
        E.check(f.done(), 'completes', 'close does not complete')
        E.check(f.exception() is None, 'completes', 'close fails')
    if u.tracer is not None:
        f = u.tracer.close()
        lp.run()
        E.check(f.done(), 'completes', 'another close does not complete')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')


def rhythm(E, kind):
    """until closed, the agent is asked first within one interval and then once per interval, whatever it answers"""
    interval = E.pick('interval', [60, 1, 0.5])
    u = Sut(E, kind, interval)
    lp = u.lp
    lp.run()
    polls = 4
    n = 0
    while u.requests() < polls * (2 if kind == 'tracer' else 1) and n < 30:
        if not lp.fire():
            break
        u.watch()
        n += 1
        for f in u.pending():
            a = E.choose('answer', 3) if n == 1 else 0
            if a == 0:
                f.set_exception(OSError(111, 'refused'))
            elif a == 1:
                f.set_result(Response(b'{"nope": 1}'))
        lp.run()
    for k, ts in u.times.items():
        if (k == 's' and u.s is None) or (k == 't' and u.t is None):
            continue
        E.check(len(ts) >= polls, 'rhythm', 'polling stops')
        E.check(E.And(ts[0] >= 0, ts[0] <= interval + EPS), 'rhythm', 'first request later than one interval')
        for x, y in zip(ts, ts[1:]):
            E.check(E.And(y - x <= interval + EPS, y - x >= interval - EPS), 'rhythm', 'requests not one interval apart')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')
    E.reach('rhythm')


def concurrent(E, kind, fired, closers, bound):
    """close in other threads while the event loop is at any point of its work"""
    interval = 60
    u = Sut(E, kind, interval)
    lp = u.lp
    for _ in range(fired):
        lp.run()
        lp.fire(settle=False)
    done = []

    def loop():
        for _ in range(2):
            while lp.step():
                done.append(u.requests())
            lp.fire(settle=False)
        return lp.run()
    ts = lp.threads(E, loop, [u.close] * closers, bound)
    for t in ts:
        E.check(t.exc is None, 'raises', 'raises %s' % (type(t.exc).__name__,))
    closed = u.requests()
    n = 0
    while n < 6 and lp.fire():
        n += 1
    E.check(u.requests() == closed, 'quiet', 'the agent is asked after close')
    for f in u.pending():
        f.set_exception(OSError(111, 'refused'))
    lp.run()
    for _ in range(3):
        lp.fire()
    E.check(u.requests() == closed, 'quiet', 'the agent is asked after close')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')
    E.reach('thread')


def use(E, kind, bound):
    """decisions in another thread do not disturb the polling"""
    u = Sut(E, kind, 60)
    lp = u.lp

    def loop():
        for _ in range(3):
            lp.run()
            lp.fire()
            for f in u.pending():
                f.set_result(Response(b'{"operationSampling": {"defaultSamplingProbability": 0.5, "defaultLowerBoundTracesPerSecond": 1, "perOperationStrategies": [{"operation": "x", "probabilisticSampling": {"samplingRate": 1.0}}]}}' if kind == 'sampler'
                                      else b'{"balances": [{"operation": "op", "balance": 2}]}'))

    def ask():
        return [u.s.is_sampled(1 << i, o) if kind == 'sampler' else u.t.is_allowed(o) for i, o in enumerate(('op', 'new'))]
    ts = lp.threads(E, loop, [ask], bound)
    for t in ts:
        E.check(t.exc is None, 'raises', 'raises %s' % (type(t.exc).__name__,))
    n = u.requests()
    E.check(n == 3, 'rhythm', 'polling stops')
    for i in range(2):
        lp.run()
        lp.fire()
    E.check(u.requests() == n + 2, 'rhythm', 'polling stops')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for kind, n in (('sampler', 9), ('throttler', 9), ('tracer', 9)):
        out.append((kind + '-close', history, dict(kind=kind, steps=n + 2 if deep else n)))
        out.append((kind + '-rhythm', rhythm, dict(kind=kind)))
    out.append(('throttler-idle', history, dict(kind='throttler', steps=6, idle=True)))
    b = 3 if deep else 2
    for kind in ('sampler', 'throttler'):
        for fired in (0, 1, 2):
            out.append(('thread-%s%d' % (kind, fired), concurrent, dict(kind=kind, fired=fired, closers=1, bound=b)))
        out.append(('threads-%s' % kind, concurrent, dict(kind=kind, fired=1, closers=2, bound=b - 1)))
        out.append(('use-%s' % kind, use, dict(kind=kind, bound=b - 1 if kind == 'sampler' else b)))
    return out
