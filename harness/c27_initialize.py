"""C27 only one global tracer is ever initialised."""
import socket
import opentracing
import tornado.httpclient
from jaeger_client import Config
from jaeger_client.reporter import Reporter
from jaeger_client.tracer import Tracer
from jaeger_client.local_agent_net import LocalAgentSender
from harness.common import *
from harness.vloop import Loop, Counters
from harness.c26_config import Http, Env
from harness.c23_datagram import Sock

THREADS = True
BOUNDS = ('up to 4 sequential calls on the same or different configurations (constant, remote or adaptive sampler, throttler, composite reporter, any), in any order with calls of Config.initialized and new_tracer; two threads (same or different configuration) with one or two calls each and three threads with one call '
          'each, every schedule with at most 2 (three threads: 1; thorough 3 and 2) preemptions')
ASSUMPTIONS = ['a preemption happens only where the code accesses an attribute or container that some code changes, or takes a lock', 'sockets and the HTTP client are recorders',
               'construction of the winning tracer does not fail; the flag is documented by its code to stay set otherwise']
REACH = ['one', 'global', 'nothing', 'initialized', 'fresh']
CFGS = [{'sampler': {'type': 'const', 'param': 1}}, {}, {'throttler': {}, 'logging': True, 'sampler': {'type': 'const', 'param': 0}}]


class World(object):
    """a process in which nothing has been initialised; counts what is created"""

    def __init__(self, E):
        self.E = E

    def __enter__(self):
        E = self.E
        self.lp = Loop(E)
        E.set_random(lambda kind, *a: 0.5 if kind == 'random' else 9)
        self.saved = [(o, n, o.__dict__[n]) for o, n in [(socket, 'socket'), (socket, 'getaddrinfo'), (socket, 'gethostbyname'), (socket, 'gethostname'), (tornado.httpclient, 'AsyncHTTPClient'),
                                                         (opentracing, 'tracer'), (opentracing, 'is_tracer_registered'), (opentracing, 'set_global_tracer'), (Config, '_initialized')] if n in o.__dict__]
        socket.socket, socket.getaddrinfo = Sock, lambda *a, **kw: [(2, 2, 17, '', ('127.0.0.1', 6831))]
        socket.gethostbyname, socket.gethostname = lambda h: '10.1.2.3', lambda: 'hn'
        tornado.httpclient.AsyncHTTPClient = Http
        Sock.sent, Sock.fail, Http.urls = [], [], []
        self.made = made = {'tracer': [], 'reporter': [], 'channel': [], 'global': []}
        for cls, name in [(Tracer, 'tracer'), (Reporter, 'reporter'), (LocalAgentSender, 'channel')]:
            self.watch(cls, name)
        setg = opentracing.set_global_tracer

        def set_global(t):
            made['global'].append(t)
            setg(t)
        opentracing.set_global_tracer = set_global
        if '_initialized' in Config.__dict__:
            Config._initialized = False
        self.env = Env()
        self.env.__enter__()
        return self

    def watch(self, cls, name):
        init = cls.__init__
        self.saved.append((cls, '__init__', init))
        made = self.made[name]

        def __init__(obj, *a, **k):
            made.append(obj)
            return init(obj, *a, **k)
        cls.__init__ = __init__

    def __exit__(self, *a):
        self.env.__exit__()
        for o, n, v in self.saved:
            setattr(o, n, v)

    def config(self, k):
        return Config(dict(CFGS[k]), service_name='svc%d' % k, metrics_factory=Counters())

    def init(self, c):
        return c.initialize_tracer(io_loop=self.lp.io)

    def verdict(self, results, extra=0):
        """results of all initialize_tracer calls; extra tracers made on purpose"""
        E, made = self.E, self.made
        won = [r for r in results if r is not None]
        E.check(len(won) == 1, 'one', '%d calls of %d return a tracer' % (len(won), len(results)))
        E.check(len(made['global']) == 1, 'global', 'the global tracer is set %d times' % len(made['global']))
        E.check(opentracing.global_tracer() is won[0], 'global', 'the global tracer is another one')
        for what in ('tracer', 'reporter', 'channel'):
            E.check(len(made[what]) == 1 + extra, 'nothing', '%d objects made: %s' % (len(made[what]), what))
        E.check(Config.initialized() is True, 'initialized', 'not initialised afterwards')
        E.check(won[0].service_name in ('svc0', 'svc1', 'svc2'), 'one', 'another tracer')


def sequence(E, n):
    """calls one after another; at least one"""
    with World(E) as w:
        cs, res, extra = {}, [], 0
        for i in range(n):
            k = E.choose('config%d' % i, 3)
            fresh = k not in cs or E.choose('object%d' % i, 2)
            if fresh:
                cs[k] = w.config(k)
            op = E.choose('op%d' % i, 2) if i + 1 < n or res else 1
            if op == 0:
                t = cs[k].new_tracer(io_loop=w.lp.io)
                E.check(isinstance(t, Tracer) and t not in w.made['tracer'][:-1], 'fresh', 'new_tracer returns no new tracer')
                E.check(len(w.made['global']) == (1 if res else 0), 'fresh', 'new_tracer sets the global tracer')
                extra += 1
            else:
                E.check(Config.initialized() is bool(res), 'initialized', 'state differs before call %d' % i)
                res.append(w.init(cs[k]))
                E.check((res[-1] is not None) == (len(res) == 1), 'one', 'call %d' % len(res))
            E.check(Config.initialized() is bool(res), 'initialized', 'state differs after call %d' % i)
        w.lp.run()
        w.verdict(res, extra)


def threads(E, calls, same, bound):
    """calls[i] calls in thread i"""
    with World(E) as w:
        cs = [w.config(0)] * len(calls) if same else [w.config(i % 3) for i in range(len(calls))]

        def worker(i):
            return lambda: [w.init(cs[i]) for j in range(calls[i])]
        ts = E.threads([worker(i) for i in range(len(calls))], bound)
        for t in ts:
            E.check(t.exc is None, 'one', 'initialize_tracer raises %s' % (type(t.exc).__name__,))
        w.lp.run()
        w.verdict([r for t in ts for r in t.result])


def observer(E, bound):
    """initialized() seen from another thread never goes back"""
    with World(E) as w:
        c = w.config(0)
        seen = []
        ts = E.threads([lambda: w.init(c), lambda: [seen.append(Config.initialized()) for i in range(2)]], bound)
        E.check(ts[0].exc is None and ts[1].exc is None, 'initialized', 'raises')
        E.check(seen in ([False, False], [False, True], [True, True]), 'initialized', 'seen %s' % seen)
        w.verdict([ts[0].result])


def scenarios(tier):
    th = tier == 'thorough'
    b = 3 if th else 2
    out = [('sequence%d' % n, sequence, dict(n=n)) for n in ((1, 2, 3) if not th else (1, 2, 3, 4))]
    for same in (True, False):
        s = 'same' if same else 'other'
        out.append(('threads11-' + s, threads, dict(calls=(1, 1), same=same, bound=b)))
        out.append(('threads21-' + s, threads, dict(calls=(2, 1), same=same, bound=b)))
        out.append(('threads111-' + s, threads, dict(calls=(1, 1, 1), same=same, bound=b - 1)))
    out.append(('observer', observer, dict(bound=b)))
    return out
