"""C25 a composite reporter fans out to every reporter."""
from jaeger_client.reporter import CompositeReporter, InMemoryReporter, LoggingReporter, NullReporter
from harness.common import *
from harness.vloop import Loop, Future

BOUNDS = ('0..3 (thorough 4) reporters, each closing at once, later, or with an error; every completion order; up to 3 spans; nested composites; one of the own reporter kinds in every position')
ASSUMPTIONS = ['every reporter implements close, set_process and report_span without raising']
REACH = ['none', 'order', 'close', 'nested', 'builtin']


class Part(object):
    def __init__(self, E, log, name, how):
        self.E, self.log, self.name, self.how = E, log, name, how
        self.f = None
        self.n = 0

    def set_process(self, service_name, tags, max_length):
        self.log.append((self.name, 'process', service_name, tags, max_length))

    def report_span(self, span):
        self.log.append((self.name, 'span', span))

    def close(self):
        self.n += 1
        self.f = Future()
        if self.how == 'now':
            self.f.set_result(True)
        elif self.how == 'now-error':
            self.f.set_exception(ValueError('close failed'))
        return self.f


def fan(E, n, nested=False):
    lp = Loop(E)
    log = []
    parts = [Part(E, log, i, E.pick('how%d' % i, ['now', 'later', 'later-error', 'now-error'] if n < 3 else ['now', 'later', 'later-error'])) for i in range(n)]
    if nested and n:
        E.reach('nested')
        k = E.choose('split', n + 1)
        r = CompositeReporter(CompositeReporter(*parts[:k]), CompositeReporter(*parts[k:]))
    else:
        r = CompositeReporter(*parts)
    if n == 0:
        E.reach('none')
    svc, ml = E.str('svc', 2), E.int('maxlen', 0, 1000)
    tags = {'a': 1}
    r.set_process(svc, tags, ml)
    m = E.int('spans', 0, 3)
    spans = []
    while len(spans) < m:
        spans.append(object())
        r.report_span(spans[-1])
    for i in range(n):
        mine = [x for x in log if x[0] == i]
        E.check(len(mine) == 1 + len(spans), 'fanout', 'reporter got %d calls for %d' % (len(mine), 1 + len(spans)))
        E.check(mine[0][1] == 'process', 'process', 'process not set')
        E.check(E.And(mine[0][2] == svc, mine[0][4] == ml), 'process', 'process differs')
        E.check(mine[0][3] == tags, 'process', 'process tags differ')
        E.reach('order')
        for s, x in zip(spans, mine[1:]):
            E.check(x[1] == 'span' and x[2] is s, 'fanout', 'spans out of order')
    f = r.close()
    lp.run()
    for p in parts:
        E.check(p.n == 1, 'close', 'a reporter is not closed exactly once')
    open_ = [p for p in parts if not p.f.done()]
    k = 0
    while open_:
        E.check(not f.done(), 'close', 'close completes although a reporter has not')
        p = open_.pop(E.choose('next%d' % k, len(open_)) if len(open_) > 1 else 0)
        k += 1
        if p.how.endswith('error'):
            p.f.set_exception(ValueError('close failed'))
        else:
            p.f.set_result(True)
        lp.run()
    E.check(f.done(), 'close', 'close does not complete')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')
    E.reach('close')


class Log(object):
    def __init__(self):
        self.n = 0

    def info(self, *a):
        self.n += 1


def builtin(E):
    lp = Loop(E)
    mem, log = InMemoryReporter(), Log()
    parts = [mem, LoggingReporter(log), NullReporter()]
    a = parts.pop(E.choose('first', 3))
    b = parts.pop(E.choose('second', 2))
    r = CompositeReporter(a, b, parts[0])
    r.set_process('svc', {}, 10)
    t = make_tracer(reporter=r)
    m = E.int('spans', 0, 3)
    spans = []
    while len(spans) < m:
        sp = t.start_span('op')
        sp.finish()
        spans.append(sp)
    got = mem.get_spans()
    E.check(len(got) == len(spans), 'fanout', 'in-memory reporter lost spans')
    for x, y in zip(got, spans):
        E.check(x is y, 'fanout', 'spans out of order')
    E.check(log.n == len(spans), 'fanout', 'logging reporter lost spans')
    f = t.close()
    lp.run()
    E.check(f.done(), 'close', 'close does not complete')
    E.reach('builtin')


def scenarios(tier):
    out = [('builtin', builtin, {})]
    for n in range(5 if tier == 'thorough' else 4):
        out.append(('fan%d' % n, fan, dict(n=n)))
        if n:
            out.append(('nested%d' % n, fan, dict(n=n, nested=True)))
    return out
