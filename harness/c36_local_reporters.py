"""C36 the in-memory and the logging reporter show exactly the reported spans."""
from jaeger_client import reporter as reporters
from harness.common import *

THREADS = True
BOUNDS = ('all sequences of 4 (thorough 5) operations out of reporting one of two spans, taking the list, changing a taken list, setting the process and closing; 2 threads reporting 1..2 spans and one taking the list twice, every schedule with at most 2 (thorough 3) '
          'preemptions at shared accesses and lock operations; one history of 3000 spans; logged spans with one of these arbitrary: trace id of 64 or of 125 to 128 bits, span id, parent id, flags below 256, name of up to 2 characters (any Unicode character)')
ASSUMPTIONS = ['the logger is a stub that renders the message as the logging module does', 'a preemption happens only where the code accesses an attribute or container that some code changes, or takes a lock']
REACH = ['kept', 'own', 'threads', 'logged', 'default']


class Log(object):
    """renders each record like logging.LogRecord.getMessage"""

    def __init__(self):
        self.lines = []

    def info(self, msg, *args):
        self.lines.append(msg % args if args else msg)

    debug = warning = error = info

    def log(self, level, msg, *args):
        self.info(msg, *args)


def some(E, n):
    t = make_tracer(RecordingReporter())
    return [Span(SpanContext(5, 6 + i, None, 1), t, 'op', start_time=1.0) for i in range(n)]


def same_list(E, got, want, label):
    E.check(len(got) == len(want), label, '%d spans instead of %d' % (len(got), len(want)))
    for g, w in zip(got, want):
        E.check(g is w, label, 'another span, or another order')


def sequence(E, n):
    r = reporters.InMemoryReporter()
    other = reporters.InMemoryReporter()
    spans = some(E, 2)
    want, taken = [], []
    for i in range(n):
        op = E.pick('op%d' % i, ['first', 'second', 'take', 'clear', 'append', 'process', 'close'])
        if op == 'first' or op == 'second':
            sp = spans[op == 'second']
            r.report_span(sp)
            want = want + [sp]
        elif op == 'take':
            got = r.get_spans()
            same_list(E, got, want, 'kept')
            taken.append([got, list(want)])
        elif op == 'process':
            r.set_process('svc', {'a': 1}, 10)
        elif op == 'close':
            E.check(r.close().result() is True, 'kept', 'close does not complete')
        elif taken:
            E.reach('own')
            g = taken[-1][0]
            if op == 'clear':
                g.clear()
                taken[-1][1] = []
            else:
                g.append(None)
                taken[-1][1].append(None)
    same_list(E, r.get_spans(), want, 'kept')
    for g, w in taken:
        same_list(E, g, w, 'own')
    same_list(E, other.get_spans(), [], 'kept')


def through_tracer(E):
    """finished sampled spans arrive in the order of finishing"""
    r = reporters.InMemoryReporter()
    E.set_clock(lambda: 5.0)
    t = make_tracer(r)
    fl = [E.int('flags%d' % i, 0, 3) for i in range(3)]
    spans = [t.start_span('op', child_of=SpanContext(5, 6 + i, None, fl[i])) for i in range(3)]
    k = E.choose('first', 3)
    order = [spans[(k + i) % 3] for i in range(3)]
    for sp in order:
        sp.finish()
    same_list(E, r.get_spans(), [s for s in order if s.flags & 1 != 0], 'kept')
    t.close()
    same_list(E, r.get_spans(), [s for s in order if s.flags & 1 != 0], 'kept')


def big(E, n):
    r = reporters.InMemoryReporter()
    sp = some(E, 1)[0]
    k = E.int('k', 0, 1)
    for i in range(n):
        r.report_span(sp)
    if k == 1:
        r.report_span(sp)
        n += 1
    E.check(len(r.get_spans()) == n, 'kept', 'spans are dropped')


def concurrent(E, counts, bound):
    r = reporters.InMemoryReporter()
    spans = some(E, sum(counts))
    parts, k = [], 0
    for c in counts:
        parts.append(spans[k:k + c])
        k += c
    shots = []

    def worker(part):
        def run():
            for sp in part:
                r.report_span(sp)
        return run

    def reader():
        shots.append(r.get_spans())
        shots.append(r.get_spans())
    ts = E.threads([worker(p) for p in parts] + [reader], bound)
    for t in ts:
        E.check(t.exc is None, 'threads', '%s raised' % (type(t.exc).__name__,))
    got = r.get_spans()
    E.check(len(got) == len(spans), 'threads', 'a span is lost or doubled')
    for p in parts:
        same_list(E, [g for g in got if any(g is x for x in p)], p, 'threads')
    for s in shots:
        same_list(E, s, got[:len(s)], 'threads')
    E.check(len(shots[0]) <= len(shots[1]), 'threads', 'a span disappears')


def logged(E, which):
    """one line for each span, naming its ids, flags, service and operation"""
    log = Log()
    r = reporters.LoggingReporter(log)
    t = make_tracer(RecordingReporter())
    tid = E.int('trace_id', 1, U64) if which == 'trace' else E.int('trace_id', 1 << 124, U128) if which == 'wide' else 0xabcdef
    sid = E.int('span_id', 1, U64) if which == 'span' else 0xfedc
    pid = E.int('parent_id', 1, U64) if which == 'parent' else 0x1a if which == 'span' else None
    fl = E.int('flags', 0, 255) if which == 'flags' else 1
    name = E.str('op', (0, 2)) if which == 'name' else 'GET /%s?a=100%'
    sp = Span(SpanContext(tid, sid, pid, fl), t, name, start_time=1.0)
    r.set_process('svc', {}, 10)
    r.report_span(sp)
    E.check(len(log.lines) == 1, 'logged', '%d records for one span' % len(log.lines))
    line = log.lines[0]
    want = '{:x}:{:x}:{:x}:{:x} '.format(tid, sid, pid or 0, fl) + t.service_name + '.' + name
    E.check(line.endswith(want), 'logged', 'the record does not name the span')
    r.report_span(sp)
    E.check(len(log.lines) == 2 and log.lines[1] == line, 'logged', 'a span is not logged again')
    E.check(r.close().result() is True, 'logged', 'close does not complete')


def default(E):
    """without a logger the library's own is used; the null reporter ignores everything"""
    log = Log()
    old = reporters.default_logger
    reporters.default_logger = log
    try:
        sp = some(E, 1)[0]
        r = reporters.LoggingReporter(None if E.choose('given', 2) else log)
        r.report_span(sp)
        E.check(len(log.lines) == 1, 'default', 'not logged')
        n = reporters.NullReporter()
        n.set_process('svc', {}, 10)
        n.report_span(sp)
        E.check(n.close().result() is True, 'default', 'close does not complete')
        E.check(len(log.lines) == 1, 'default', 'logged by another reporter')
    finally:
        reporters.default_logger = old


def scenarios(tier):
    deep = tier == 'thorough'
    out = [('sequence', sequence, dict(n=5 if deep else 4)), ('tracer', through_tracer, {}), ('big', big, dict(n=3000)), ('default', default, {})]
    for c in ((1, 1), (2, 1)) + (((2, 2),) if deep else ()):
        out.append(('threads%d%d' % c, concurrent, dict(counts=c, bound=3 if deep else 2)))
    for w in ('trace', 'wide', 'span', 'parent', 'flags', 'name'):
        out.append(('logged-' + w, logged, dict(which=w)))
    return out
