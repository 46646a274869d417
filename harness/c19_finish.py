"""C19 a sampled span is reported exactly once."""
from jaeger_client.reporter import InMemoryReporter
from harness.common import *
from harness.vloop import Counters

THREADS = True
BOUNDS = ('sequences of up to 4 finish calls in one thread, plain, through a context manager with or without an exception, or as an active scope; 2 threads (thorough: 3) each finishing once or twice, every schedule with at most 2 (thorough 3) preemptions at shared accesses and '
          'lock operations; every flags value; explicit end times (any real > 0) or the clock; two calls in a row with an end time of zero or a reporter that raises')
ASSUMPTIONS = ['a preemption happens only where the code accesses an attribute or container that some code changes, or takes a lock', 'finish_time=0 means none']
REACH = ['reported', 'end-time', 'counted', 'unsampled', 'body']


def span(E, m=None, flags=None):
    rep = RecordingReporter()
    m = m or Counters()
    t = make_tracer(rep, metrics_factory=m)
    fl = E.int('flags', 0, 255) if flags is None else flags
    from jaeger_client.span import Span
    s = Span(SpanContext(5, 6, 7, fl), t, 'op', start_time=10.0)
    return s, rep, m, fl & 1 != 0


def verdict(E, s, rep, m, sampled, ends):
    if sampled:
        E.check(len(rep.spans) == 1, 'reported', 'reported %d times' % len(rep.spans))
        E.check(rep.spans[0] is s, 'reported', 'another span reported')
        E.check(E.Or(*[s.end_time == x for x in ends]), 'end-time', 'end time of no call')
        E.check(m.get('jaeger:finished_spans') == 1, 'counted', 'finished spans counted %s times' % m.get('jaeger:finished_spans'))
    else:
        E.check(not rep.spans, 'unsampled', 'unsampled span reported')
        E.check(m.get('jaeger:finished_spans') == 0, 'unsampled', 'unsampled span counted')


def sequence(E, ops):
    """calls in one thread"""
    s, rep, m, sampled = span(E)
    now = [100]

    def clock():
        now[0] += 1
        return float(now[0])
    E.set_clock(clock)
    first = None
    for i, op in enumerate(ops):
        lo = now[0]
        raised = E.bool('raises%d' % i) if op in 'WA' else False
        ft = None
        try:
            if op == 'F':
                if E.choose('explicit%d' % i, 2):
                    ft = E.real('end%d' % i, 1, 1 << 40)
                    s.finish(ft) if E.choose('positional%d' % i, 2) else s.finish(finish_time=ft)
                else:
                    s.finish()
            elif op == 'W':
                with s:
                    if raised:
                        raise KeyError('body')
            else:
                with s.tracer.scope_manager.activate(s, True):
                    if raised:
                        raise KeyError('body')
            E.check(not raised, 'body', 'the exception of the body is swallowed')
        except KeyError:
            E.check(raised, 'body', 'an exception out of nothing')
        E.check(s.tracer.active_span is None, 'body', 'a scope stays active')
        if first is None:
            first = ft if ft is not None else (lo, now[0])
        if sampled:
            E.check(len(rep.spans) == 1, 'reported', 'reported %d times after %d calls' % (len(rep.spans), i + 1))
    if isinstance(first, tuple):
        if sampled:
            E.check(E.And(s.end_time > first[0], s.end_time <= first[1]), 'end-time', 'not the end time of the first call')
        verdict(E, s, rep, m, sampled, [s.end_time])
    else:
        verdict(E, s, rep, m, sampled, [first])


def concurrent(E, calls, bound):
    """calls[i] finish calls in thread i"""
    s, rep, m, sampled = span(E)
    ends = []
    n = [0]

    def clock():
        n[0] += 1
        ends.append(1000.0 + n[0])
        return ends[-1]
    E.set_clock(clock)

    def worker(i):
        def run():
            for j in range(calls[i]):
                if (i + j) % 2:
                    ft = E.real('end%d_%d' % (i, j), 1, 1 << 40)
                    ends.append(ft)
                    s.finish(ft)
                else:
                    s.finish()
        return run
    before = []
    rep_report = rep.report_span

    def report(x):
        before.append((x.end_time, x.finished))
        rep_report(x)
    rep.report_span = report
    ts = E.threads([worker(i) for i in range(len(calls))], bound)
    for t in ts:
        E.check(t.exc is None, 'reported', 'finish raises %s' % (type(t.exc).__name__,))
    verdict(E, s, rep, m, sampled, ends)
    if sampled:
        E.check(before[0][0] == s.end_time, 'end-time', 'end time changes after the report')
        E.check(before[0][1], 'end-time', 'reported before it is finished')


def managers(E, bound):
    """a context manager in each of two threads, one body raising"""
    s, rep, m, sampled = span(E)
    E.set_clock(lambda: 5.0)

    def good():
        with s:
            E.pause('body')

    def bad():
        with s:
            raise KeyError('body')
    ts = E.threads([good, bad], bound)
    E.check(ts[0].exc is None, 'body', 'an exception out of nothing')
    E.check(isinstance(ts[1].exc, KeyError), 'body', 'the exception of the body is swallowed')
    verdict(E, s, rep, m, sampled, [5.0])


def two_spans(E, bound):
    """finishing one span does not affect another"""
    s, rep, m, sampled = span(E, flags=1)
    s2 = s.tracer.start_span('b', child_of=s)
    E.set_clock(lambda: 5.0)
    E.threads([s.finish, s2.finish], bound)
    E.check(len(rep.spans) == 2 and s in rep.spans and s2 in rep.spans, 'reported', 'reported %d times' % len(rep.spans))
    E.check(m.get('jaeger:finished_spans') == 2, 'counted', 'counter differs')


def priority(E, bound):
    """the sampling priority changes while the span is finished"""
    s, rep, m, sampled = span(E)
    E.set_clock(lambda: 5.0)
    p = E.int('priority', 0, 1)
    E.threads([lambda: s.set_tag('sampling.priority', p), lambda: (s.finish(), s.finish())], bound)
    n = len(rep.spans)
    E.check(n <= 1, 'reported', 'reported %d times' % n)
    E.check(m.get('jaeger:finished_spans') == n, 'counted', 'counter differs')
    if E.And(sampled, p == 1):
        E.check(n == 1, 'reported', 'a sampled span is not reported')
    if E.And(E.Not(sampled), p == 0):
        E.check(n == 0, 'unsampled', 'unsampled span reported')


def reporters(E, bound):
    """the reporters of the library take the same span from each thread once"""
    rep = InMemoryReporter()
    t = make_tracer(rep)
    sp = [t.start_span('a') for i in range(2)]
    E.threads([lambda: sp[0].finish(), lambda: (sp[1].finish(), sp[0].finish())], bound)
    got = rep.get_spans()
    E.check(len(got) == 2 and sp[0] in got and sp[1] in got, 'reported', 'reported %d times' % len(got))


def trouble(E, raises):
    """a reporter that fails, or an end time of zero, is no reason to report again"""
    s, rep, m, sampled = span(E)
    E.set_clock(lambda: 5.0)
    plain = rep.report_span

    def report(x):
        plain(x)
        if raises:
            raise RuntimeError('reporter')
    rep.report_span = report
    for i in range(2):
        try:
            k = E.choose('how%d' % i, 4)
            if k == 0:
                s.finish()
            elif k == 1:
                s.finish(E.pick('end%d' % i, [0, 0.0, 1]))
            elif k == 2:
                with s:
                    pass
            else:
                with s.tracer.scope_manager.activate(s, True):
                    pass
        except RuntimeError:
            E.check(raises, 'body', 'an exception out of nothing')
        E.check(len(rep.spans) == (1 if sampled else 0), 'reported', 'reported %d times after %d calls' % (len(rep.spans), i + 1))
        E.check(m.get('jaeger:finished_spans') <= 1, 'counted', 'finished spans counted more than once')


def scenarios(tier):
    th = tier == 'thorough'
    b = 3 if th else 2
    out = []
    for ops in ['F', 'W', 'A', 'FF', 'WF', 'AF', 'FW', 'WW', 'AA', 'FFF'] + (['FWAF', 'FFFF', 'WWW'] if th else []):
        out.append(('sequence-' + ops, sequence, dict(ops=ops)))
    out += [('trouble%d' % r, trouble, dict(raises=r)) for r in (0, 1)]
    out.append(('threads11', concurrent, dict(calls=(1, 1), bound=b + 1)))
    out.append(('threads21', concurrent, dict(calls=(2, 1), bound=b)))
    out.append(('threads111', concurrent, dict(calls=(1, 1, 1), bound=b)))
    if th:
        out.append(('threads22', concurrent, dict(calls=(2, 2), bound=b)))
    out += [('managers', managers, dict(bound=b)), ('two-spans', two_spans, dict(bound=b)), ('priority', priority, dict(bound=b)), ('reporters', reporters, dict(bound=b))]
    return out
