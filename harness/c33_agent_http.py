"""C33 requests to the agent name exactly the service, the client and the operations."""
import tornado.httpclient
import urllib.parse
from jaeger_client.local_agent_net import LocalAgentSender
from jaeger_client.sampler import RemoteControlledSampler
from jaeger_client.throttler import RemoteThrottler
from harness.common import *
from harness.vloop import Loop, Counters, Future, Response

BOUNDS = ('service names and operation names: every text of 0..2 (thorough 4, service name asked for directly 5) Unicode and 3 ASCII characters; client ids 0..2^20 (thorough 2^63-1) and 2^63-1; 0..2 (thorough 3) operations, in one scenario 64; ports 1..65535; the requests of the sampler and of the '
          'throttler themselves; two requests in a row')
ASSUMPTIONS = ['the HTTP client records the address it is given', 'names contain no lone surrogates', 'the agent decodes queries as forms']
REACH = ['sampling', 'credits', 'sampler', 'throttler', 'timeout']


class Http(object):
    """stands in for the HTTP client"""
    calls = []

    def __init__(self, *a, **k):
        self.defaults = k.get('defaults') or {}

    def fetch(self, url, *a, **k):
        f = Future()
        t = k.get('request_timeout', self.defaults.get('request_timeout'))
        if not isinstance(url, str):
            t = getattr(url, 'request_timeout', None) or t
            url = getattr(url, 'url', url)
        Http.calls.append((url, t, f))
        return f


class Client(object):
    def __enter__(self):
        self.old = tornado.httpclient.AsyncHTTPClient
        tornado.httpclient.AsyncHTTPClient = Http
        Http.calls = []

    def __exit__(self, *a):
        tornado.httpclient.AsyncHTTPClient = self.old


def sender(lp, host='h', sport=5778, tport=5779):
    return LocalAgentSender(host=host, sampling_port=sport, reporting_port=6831, io_loop=lp.io, throttling_port=tport)


def parts(E, url, base, plain=True):
    """the form fields of the query"""
    if not url.startswith(base + '?'):
        E.fail('address', 'wrong address')
        return None
    q = url[len(base) + 1:]
    out = []
    for f in q.split('&'):
        kv = f.split('=')
        if len(kv) != 2:
            E.fail('query', 'malformed field')
            return None
        out.append((urllib.parse.unquote_plus(kv[0]), urllib.parse.unquote_plus(kv[1])))
    if plain:
        E.check(E.And(*[E.And(c > ' ', c < '\x7f', c != '#') for c in q]), 'query', 'a character that does not belong into an address')
    return out


def same(E, got, want):
    """exactly these fields, in any order"""
    if got is None:
        return
    E.check(len(got) == len(want), 'query', 'number of fields differs')
    left = list(want)
    for k, v in got:
        for i, (k2, v2) in enumerate(left):
            if k == k2 and v == v2:
                del left[i]
                break
        else:
            E.fail('query', 'a field that was not asked for')
            return


def last(E, n):
    E.check(len(Http.calls) == n, 'requests', 'number of requests differs')
    return Http.calls[-1]


def sampling(E, n, chars=None):
    lp = Loop(E)
    port = E.int('port', 1, 65535) if n == 0 else 5778
    with Client():
        s = sender(lp, sport=port)
        svc = E.str('service', n, chars=chars)
        f = s.request_sampling_strategy(svc, timeout=7)
        url, t, g = last(E, 1)
        same(E, parts(E, url, 'http://h:%d/sampling' % port), [('service', svc)])
        E.check(t == 7, 'timeout', 'timeout differs')
        E.check(f is g, 'answer', 'the answer is not handed on')
        f = s.request_sampling_strategy(service_name='second', timeout=8)
        url, t, g = last(E, 2)
        same(E, parts(E, url, 'http://h:%d/sampling' % port), [('service', 'second')])
        E.check(t == 8, 'timeout', 'timeout differs')
    E.reach('sampling')
    E.reach('timeout')


def credits(E, n, ops, client=0):
    lp = Loop(E)
    with Client():
        s = sender(lp, host=E.pick('host', ['localhost', '10.0.0.1']) if n == 0 else 'h', tport=E.pick('tport', [5778, 80]) if n == 0 else 99)
        base = 'http://%s:%d/credits' % (s.throttling_http.agent_http_host, s.throttling_http.agent_http_port)
        svc = E.str('service', n) if not ops else E.str('service', 1) if n == 1 and ops == 1 else 's&v'
        cid = E.int('client', 0, client) if client else E.pick('client', [0, 1234567890123, (1 << 63) - 1]) if n == 0 else (1 << 63) - 1
        names = [E.str('op%d' % i, n) for i in range(ops)]
        if ops == 2:
            E.assume(names[0] != names[1])
        f = s.request_throttling_credits(svc, cid, list(names), timeout=7)
        url, t, g = last(E, 1)
        same(E, parts(E, url, base, not client), [('service', svc), ('uuid', str(cid))] + [('operations', o) for o in names])
        E.check(t == 7, 'timeout', 'timeout differs')
        E.check(f is g, 'answer', 'the answer is not handed on')
        s.request_throttling_credits('second', 5, ['a b'])
        url, t, g = last(E, 2)
        same(E, parts(E, url, base), [('service', 'second'), ('uuid', '5'), ('operations', 'a b')])
    E.reach('credits')


def sampler(E, n):
    lp = Loop(E)
    E.set_clock(lp.v.time)
    E.set_random(lambda kind, *a: 0.5 if kind == 'random' else 1)
    with Client():
        svc = E.str('service', n)
        if n == 0:
            svc = 'svc'
        RemoteControlledSampler(channel=sender(lp), service_name=svc, init_sampler=ConstSampler(False), sampling_refresh_interval=10, io_loop=lp.io)
        lp.run()
        for i in range(2):
            k = len(Http.calls)
            lp.advance(10.0)
            url, t, g = last(E, k + 1)
            same(E, parts(E, url, 'http://h:5778/sampling'), [('service', svc)])
            g.set_result(Response(b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.0}}'))
            lp.run()
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')
    E.reach('sampler')


def throttler(E, n, ops, client=False, chars=None):
    lp = Loop(E)
    E.set_clock(lp.v.time)
    E.set_random(lambda kind, *a: 0.5 if kind == 'random' else 1)
    with Client():
        svc = 'a&b'
        th = RemoteThrottler(sender(lp), svc, refresh_interval=10, io_loop=lp.io)
        cid = E.int('client', 0, (1 << 63) - 1) if client else (1 << 63) - 1
        th.set_client_id(cid)
        names, want = [], []
        for i in range(ops):
            names.append(E.str('op%d' % i, n, chars=chars))
            th.is_allowed(names[-1])
            for w in want:
                if w == names[-1]:
                    break
            else:
                want.append(names[-1])
        lp.run()
        lp.advance(10.0)
        url, t, g = last(E, 1)
        same(E, parts(E, url, 'http://h:5779/credits', not client), [('service', svc), ('uuid', str(cid))] + [('operations', o) for o in want])
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')
    E.reach('throttler')


def long(E):
    """many operations, long names"""
    lp = Loop(E)
    with Client():
        s = sender(lp)
        svc = 'service/%s' % ('n&ame ' * 50)
        c = E.str('c', 1)
        names = ['GET /x/%d?a=b' % i for i in range(60)] + ['op ' * 300, '', ' ', c + 'é']
        for i in range(2):
            s.request_throttling_credits(svc, 7, names)
            same(E, parts(E, last(E, 2 * i + 1)[0], 'http://h:5779/credits', False), [('service', svc), ('uuid', '7')] + [('operations', o) for o in names])
            s.request_sampling_strategy(svc)
            same(E, parts(E, last(E, 2 * i + 2)[0], 'http://h:5778/sampling', False), [('service', svc)])


def scenarios(tier):
    top = 5 if tier == 'thorough' else 3
    r = [('long', long, {}), ('sampling-ascii', sampling, dict(n=3, chars=[(0, 0x7f)])), ('throttler-ascii', throttler, dict(n=3, ops=1, chars=[(0, 0x7f)]))]
    for n in range(0, top + (tier == 'thorough')):
        r.append(('sampling%d' % n, sampling, dict(n=n)))
    for n in range(0, top):
        r.append(('sampler%d' % n, sampler, dict(n=n)))
        r.append(('credits%d' % n, credits, dict(n=n, ops=1)))
        r.append(('credits%d-none' % n, credits, dict(n=n, ops=0)))
        r.append(('throttler%d' % n, throttler, dict(n=n, ops=1)))
    r.append(('credits-client', credits, dict(n=0, ops=0, client=(1 << 63) - 1 if tier == 'thorough' else 1 << 20)))
    r.append(('credits-two', credits, dict(n=1, ops=2)))
    r.append(('throttler-two', throttler, dict(n=1, ops=2)))
    if tier == 'thorough':
        r.append(('credits-three', credits, dict(n=1, ops=3)))
    return r
