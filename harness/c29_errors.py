"""C29 error reporting is rate-limited."""
from jaeger_client.utils import ErrorReporter
from jaeger_client.metrics import Metrics
from harness.common import *

BOUNDS = 'up to 4 (quick) or 8 (thorough) errors at arbitrary non-decreasing real clock readings, every interval from 0 to 1000 minutes (real), message arguments of up to 3 characters and one number, logger present, absent, set or removed later'
ASSUMPTIONS = ['no error is checked within a microsecond of the end of an interval', 'logging takes no time']
REACH = ['once', 'first', 'silent', 'arguments']


class Logger(object):
    def __init__(self):
        self.calls = []

    def error(self, *args, **kwargs):
        self.calls.append((args, kwargs))


def clock(E, n):
    """n non-decreasing readings"""
    ts = [E.real('t0', 0, 1 << 32)]
    for i in range(1, n):
        ts.append(ts[-1] + E.real('d%d' % i, 0, 1 << 20))
    return ts


def limit(E, n, interval, shift):
    ts = clock(E, n + 1)
    now = [0]
    E.set_clock(lambda: ts[now[0]])
    lg = Logger()
    if interval is None:
        r, minutes = ErrorReporter(Metrics(), lg), 15
    else:
        minutes = E.real('minutes', 0, 1000) if interval == 'real' else E.int('minutes', 0, 1000)
        r = ErrorReporter(Metrics(), lg, minutes) if shift else ErrorReporter(metrics=Metrics(), logger=lg, log_interval_minutes=minutes)
    last = ts[0]
    for i in range(1, n + 1):
        now[0] = i
        args = ('m%d %s', i)
        before = len(lg.calls)
        r.error(*args)
        gap = ts[i] - (last + minutes * 60)
        E.assume(E.Or(gap > 1e-6, gap < -1e-6))
        if gap > 0:
            E.check(len(lg.calls) == before + 1, 'first', 'the first error after a quiet interval is not logged once')
            E.check(lg.calls[-1] == (args, {}), 'arguments', 'logged arguments differ')
            last = ts[i]
        else:
            E.check(len(lg.calls) == before, 'once', 'more than one error logged in an interval')


def silent(E, later):
    """without a logger nothing is logged and nothing raised"""
    ts = clock(E, 4)
    now = [0]
    E.set_clock(lambda: ts[now[0]])
    lg = Logger()
    r = ErrorReporter(Metrics()) if E.choose('default', 2) else ErrorReporter(None, None, E.real('minutes', 0, 1000))
    if later:
        r.logger = lg
        now[0] = 1
        r.error('a', 1)
        r.logger = None
    n = len(lg.calls)
    for i in (2, 3):
        now[0] = i
        _, e = E.outcome(lambda: r.error(*E.pick('args%d' % i, [(), ('x',), ('x %s', 1)])))
        E.check(e is None, 'silent', 'reporting raises')
    E.check(len(lg.calls) == n, 'silent', 'logged without a logger')


def arguments(E, n):
    ts = clock(E, 2)
    now = [0]
    E.set_clock(lambda: ts[now[0]])
    E.assume(ts[1] > ts[0] + 61)
    lg = Logger()
    r = ErrorReporter(Metrics(), lg, 1)
    now[0] = 1
    s, k = E.str('text', n), E.int('number', -(1 << 40), 1 << 40)
    r.error(s, k)
    E.check(len(lg.calls) == 1, 'first', 'the first error after a quiet interval is not logged once')
    E.check(E.And(lg.calls[0][0][0] == s, lg.calls[0][0][1] == k), 'arguments', 'logged arguments differ')


def scenarios(tier):
    out = []
    for n in range(1, 9 if tier == 'thorough' else 5):
        for iv in (None, 'real', 'int'):
            out.append(('limit%d-%s' % (n, iv), limit, dict(n=n, interval=iv, shift=n % 2)))
    out += [('silent', silent, dict(later=False)), ('silent-later', silent, dict(later=True))]
    for n in range(4):
        out.append(('arguments%d' % n, arguments, dict(n=n)))
    return out
