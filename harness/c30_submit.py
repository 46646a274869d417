"""C30 work submitted to the event loop always completes its future."""
import asyncio
import concurrent.futures
import tornado.gen
from jaeger_client import ioloop_util
from harness.common import *
from harness.vloop import Loop, Future

BOUNDS = ('work: plain function, function returning a future (of the loop or of an executor), tornado coroutine, with symbolic result and arguments or one of 4 exceptions, 12 odd results (None, False, empty, an exception object), at once, after one later completion, or after a delay; '
          'up to 3 submissions completing in any order; one or two works cancelled at once or later; also the two ready-made futures')
ASSUMPTIONS = ['virtual time', 'the future of the work is completed by its owner once']
REACH = ['plain', 'future', 'coroutine', 'concurrent', 'error', 'later', 'delay', 'cancelled']


class Weird(Exception):
    def __init__(self):
        pass


class Work(object):
    """one piece of work and what must come out of it"""

    def __init__(self, E, i, lp):
        self.E, self.lp = E, lp
        self.kind = E.pick('kind%d' % i, ['plain', 'future', 'coroutine', 'coroutine2', 'future-raises', 'concurrent'])
        self.when = 'now' if self.kind in ('plain', 'future-raises') else E.pick('when%d' % i, ['now', 'later', 'delay'])
        self.err = None
        if self.kind == 'future-raises' or E.choose('fails%d' % i, 2):
            self.err = E.pick('error%d' % i, [ValueError('x'), Weird(), OSError(111, 'refused'), KeyError('k')])
            E.reach('error')
        self.value = E.int('value%d' % i, -8, 1 << 64)
        self.want = self.value + 7 if self.kind != 'none' else None
        self.inner = None
        self.calls = 0
        E.reach('coroutine' if self.kind == 'coroutine2' else 'future' if self.kind == 'future-raises' else self.kind)
        if self.when != 'now':
            E.reach(self.when)

    def out(self, x):
        if self.err is not None:
            raise self.err
        return x

    def __call__(self, x, extra=0):
        self.calls += 1
        if self.kind in ('plain', 'future-raises'):
            return self.out(x + extra)
        if self.kind in ('future', 'concurrent'):
            self.inner = Future() if self.kind == 'future' else concurrent.futures.Future()
            self.res = x + extra
            if self.when == 'now':
                self.complete()
            elif self.when == 'delay':
                self.lp.io.call_later(3.0, self.complete)
            return self.inner
        return self.coro(x, extra)

    @tornado.gen.coroutine
    def coro(self, x, extra):
        self.res = x + extra
        if self.when != 'now':
            self.inner = Future()
            if self.when == 'delay':
                self.lp.io.call_later(3.0, self.complete)
            if self.kind == 'coroutine2':
                try:
                    r = yield self.inner
                finally:
                    pass
            else:
                r = yield self.inner
        else:
            r = self.out(x + extra)
        raise tornado.gen.Return(r)

    def complete(self):
        if self.err is not None:
            self.inner.set_exception(self.err)
        else:
            self.inner.set_result(self.res)


def submit(E, n):
    lp = Loop(E)
    works = [Work(E, i, lp) for i in range(n)]
    futs = []
    done = []
    for w in works:
        f = ioloop_util.submit(w, lp.io, w.value, extra=7)
        f.add_done_callback(lambda f, w=w: done.append(w))
        futs.append(f)
    for w, f in zip(works, futs):
        E.check(w.calls == 0, 'thread', 'work runs in the caller')
        E.check(not f.done(), 'done', 'future complete before the work ran')
    lp.run()
    late = []
    for w, f in zip(works, futs):
        E.check(w.calls == 1, 'calls', 'work not run exactly once')
        if w.when == 'now':
            verify(E, w, f)
        else:
            E.check(not f.done(), 'done', 'future complete before the work is')
            if w.when == 'later':
                late.append((w, f))
    k = 0
    while late:
        w, f = late.pop(E.choose('next%d' % k, len(late)) if len(late) > 1 else 0)
        k += 1
        w.complete()
        lp.run()
        verify(E, w, f)
    lp.advance(4.0)
    for w, f in zip(works, futs):
        verify(E, w, f)
    E.check(len(done) == len(works), 'once', 'completion not signalled exactly once')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')


def verify(E, w, f):
    E.check(f.done(), 'completes', 'the future does not complete')
    if not f.done():
        return
    if w.err is not None:
        E.check(f.exception() is w.err, 'exception', 'the exception of the work is lost')
    else:
        E.check(f.exception() is None, 'result', 'fails although the work succeeded')
        E.check(f.result() == w.value + 7, 'result', 'result differs')


def cancelled(E, n):
    """work that is cancelled, now or later, completes its future as well (cancelled), other work is untouched"""
    lp = Loop(E)
    inner, futs, how, when = [], [], [], []

    def work(i, x):
        if how[i] == 'plain':
            return x
        f = Future() if how[i] == 'future' else concurrent.futures.Future()
        inner[i] = f
        if when[i] == 'now':
            f.cancel()
        elif when[i] == 'delay':
            lp.io.call_later(3.0, f.cancel)
        return f
    for i in range(n):
        how.append(E.pick('how%d' % i, ['future', 'concurrent'] + (['plain'] if i else [])))
        when.append(E.pick('when%d' % i, ['now', 'later', 'delay']) if how[i] != 'plain' else 'now')
        inner.append(None)
        futs.append(ioloop_util.submit(work, lp.io, i, x=i + 5))
    lp.run()
    for i, f in enumerate(futs):
        E.check(f.done() == (when[i] == 'now'), 'completes', 'completes too early or not at all')
    for f in inner:
        if f is not None and not f.done() and f in [g for g, w in zip(inner, when) if w == 'later']:
            f.cancel()
    lp.advance(4.0)
    lp.run()
    for i, f in enumerate(futs):
        E.check(f.done(), 'completes', 'the future of cancelled work does not complete')
        if not f.done():
            continue
        if how[i] == 'plain':
            E.check(f.result() == i + 5, 'result', 'result differs')
        else:
            E.check(f.cancelled() or isinstance(f.exception(), (asyncio.CancelledError, concurrent.futures.CancelledError)), 'exception', 'cancellation lost')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')
    E.reach('cancelled')


def results(E):
    """any result arrives as it is, also one that counts as false"""
    lp = Loop(E)
    v = E.pick('v', [None, False, True, 0, '', 'x', b'', (), [], {}, ValueError('a value'), 0.0, Future()])
    how = E.pick('how', ['plain', 'future', 'coroutine'])
    if isinstance(v, Future) and how == 'plain':
        return

    @tornado.gen.coroutine
    def coro():
        raise tornado.gen.Return(v)

    def work():
        if how == 'plain':
            return v
        if how == 'coroutine':
            return coro()
        f = Future()
        f.set_result(v)
        return f
    f = ioloop_util.submit(work, lp.io)
    lp.run()
    E.check(f.done(), 'completes', 'not complete')
    E.check(f.exception() is None and f.result() is v, 'result', 'result differs')


def ready(E):
    lp = Loop(E)
    v = E.int('v', 0, 100)
    v = E.pick('odd', [v, None, False, '', (), []])
    f = ioloop_util.future_result(v)
    E.check(f.done(), 'completes', 'not complete')
    E.check(f.result() is v or f.result() == v, 'result', 'result differs')
    e = ValueError('x')
    f = ioloop_util.future_exception(e)
    E.check(f.done(), 'completes', 'not complete')
    E.check(f.exception() is e, 'exception', 'exception differs')


def scenarios(tier):
    out = [('ready', ready, {}), ('results', results, {}), ('submit1', submit, dict(n=1)), ('submit2', submit, dict(n=2))]
    out += [('cancelled1', cancelled, dict(n=1)), ('cancelled2', cancelled, dict(n=2))]
    if tier == 'thorough':
        out.append(('submit3', submit, dict(n=3)))
    return out
