"""C26 configuration is resolved as documented."""
import copy
import os
import tornado.httpclient
from jaeger_client import Config, ConstSampler, ProbabilisticSampler, RateLimitingSampler
from jaeger_client.metrics import MetricsFactory
from jaeger_client.reporter import NullReporter, Reporter
from jaeger_client.sampler import RemoteControlledSampler
from harness.common import *
from harness.vloop import Loop, Counters, Future, Response
from harness.c23_datagram import Sock

BOUNDS = ('one option at a time: absent, given as its type, given as text: boolean options as every ASCII text of 1..5 characters; numbers as every integer in [-2^40, 2^40] and as text of 1..3 ASCII characters; header names and texts of '
          '1..3 characters; environment variables present or absent next to every presence of the option; every documented key and every other key of 1..3 characters for validation; tracers made from 12 configurations end to end')
ASSUMPTIONS = ['os.environ is replaced by a plain mapping', 'sockets and the HTTP client are recorders', 'JAEGER_TAGS may replace a configured tag of the same name']
REACH = ['default', 'given', 'bool', 'number', 'env', 'both', 'validate', 'tracer', 'tags']
DEFAULTS = {'trace_id_header': 'uber-trace-id', 'baggage_header_prefix': 'uberctx-', 'debug_id_header': 'jaeger-debug-id', 'max_tag_value_length': 1024, 'max_traceback_length': 4096,
            'sampling_refresh_interval': 60, 'reporter_flush_interval': 1, 'max_operations': None}
KEYS = ['logging', 'metrics', 'local_agent', 'sampler', 'tags', 'enabled', 'reporter_batch_size', 'reporter_queue_size', 'propagation', 'max_tag_value_length', 'max_traceback_length', 'reporter_flush_interval',
        'sampling_refresh_interval', 'trace_id_header', 'generate_128bit_trace_id', 'baggage_header_prefix', 'debug_id_header', 'service_name', 'throttler', 'max_operations']


class Env(object):
    """the environment variables of the path"""

    def __init__(self, **env):
        self.env = env

    def __enter__(self):
        self.old = os.environ
        os.environ = self.env

    def __exit__(self, *a):
        os.environ = self.old


def word(E, s, words):
    """s equals one of the words, in any casing"""
    return E.Or(*[E.And(*[E.Or(c == w, c == w.upper()) for c, w in zip(s, x)]) for x in words if len(x) == len(s)] + [False])


def boolean(E, opt, n):
    dflt = {'enabled': True, 'logging': False, 'generate_128bit_trace_id': False, 'local_agent': True, 'sampler': False, 'metrics': True}[opt]
    if n == 0:
        v = E.pick('v', [True, False, 1, 0, None, 2, -1, 1.0, 'TRUE', 'False', '', 'yes', [], {}])
        t = str(v).lower()
        want = True if t in ('true', '1') else False if t in ('false', '0', 'none') else dflt
    elif n < 0:
        v = want = None
    else:
        v = E.str('v', n, chars=[(1, 0x7f)])
        E.reach('bool')
        if word(E, v, ['true', '1']):
            want = True
        elif word(E, v, ['false', '0', 'none']):
            want = False
        else:
            want = dflt
    with Env():
        if opt == 'local_agent':
            c = Config({} if n < 0 else {'local_agent': {'enabled': v}}, service_name='x')
            got = c.local_agent_enabled
            if n < 0:
                want = dflt
        elif opt == 'sampler':
            c = Config({'sampler': {'type': 'const'} if n < 0 else {'type': 'const', 'param': v}}, service_name='x')
            s = c.sampler
            E.check(isinstance(s, ConstSampler), 'bool', 'not a constant sampler')
            got = s.is_sampled(1)[0]
            if n < 0:
                want = False
        elif opt == 'metrics':
            f = Counters()
            c = Config({} if n < 0 else {'metrics': v}, service_name='x', metrics_factory=f)
            with Env():
                t = c.create_tracer(NullReporter(), ConstSampler(True))
            t.start_span('op')
            got = f.get('jaeger:started_spans', sampled='y') + f.get('jaeger:traces', sampled='y', state='started') > 0
            if n < 0:
                want = dflt
        else:
            c = Config({} if n < 0 else {opt: v}, service_name='x')
            got = getattr(c, opt)
            if n < 0:
                want = dflt
    E.check(bool(got) == want, 'bool', 'option %s differs' % opt)
    if n < 0:
        E.reach('default')


def env128(E, n):
    """generate_128bit_trace_id: configuration before environment before default"""
    env = {}
    if n:
        env['JAEGER_TRACEID_128BIT'] = E.str('env', n, chars=[(1, 0x7f)])
    elif E.choose('env', 2):
        env['JAEGER_TRACEID_128BIT'] = 'true'
    cfg = {}
    if E.choose('given', 2):
        cfg['generate_128bit_trace_id'] = E.pick('v', [True, False, 'true', 'false', 'zz'])
    with Env(**env):
        got = Config(cfg, service_name='x').generate_128bit_trace_id
    if cfg:
        E.check(bool(got) == (cfg['generate_128bit_trace_id'] in (True, 'true')), 'env', 'configured value does not win')
        E.reach('both')
    else:
        want = env.get('JAEGER_TRACEID_128BIT', '') == 'true'
        E.check(bool(got) == bool(want), 'env', 'environment value not taken')
        E.reach('env')


def plain(E, opt):
    """taken as given"""
    with Env():
        if E.choose('given', 2):
            v = E.str('v', 3) if isinstance(DEFAULTS[opt], str) else E.int('n', 0, 1 << 40)
            cfg = {opt: v, 'other': 1}
            E.reach('given')
        else:
            v, cfg = DEFAULTS[opt], {}
            E.reach('default')
        c = Config(cfg, service_name='x')
        E.check(getattr(c, opt) == v, 'given', 'option %s differs' % opt)


NUM = {'reporter_batch_size': 10, 'reporter_queue_size': 100, 'reporting_port': 6831, 'sampling_port': 5778, 'port': 5778, 'refresh_interval': 5}
ATTR = {'reporting_port': 'local_agent_reporting_port', 'sampling_port': 'local_agent_sampling_port', 'port': 'throttler_port', 'refresh_interval': 'throttler_refresh_interval'}


def number(E, opt, how):
    env = {}
    want = NUM[opt]
    v = None
    if how == 'int':
        v = want = E.int('v', -(1 << 40), 1 << 40)
    elif how == 'text':
        v = E.str('v', 3, chars=[(0x30, 0x39)])
        want = int(v)
    elif how == 'bad':
        v = E.pick('v', ['x', '', None, '1.5', [], {}])
    if opt == 'reporting_port' and E.choose('env', 2):
        env['JAEGER_AGENT_PORT'] = E.str('env_port', 2, chars=[(0x30, 0x39)])
        if how in ('absent', 'bad', 'nogroup'):
            want = int(env['JAEGER_AGENT_PORT'])
            E.reach('env')
        else:
            E.reach('both')
    group = {'reporting_port': 'local_agent', 'sampling_port': 'local_agent', 'port': 'throttler', 'refresh_interval': 'throttler'}.get(opt)
    cfg = {}
    if group:
        if how != 'nogroup':
            cfg = {group: {} if how == 'absent' else {opt: v}}
    elif how not in ('absent', 'nogroup'):
        cfg = {opt: v}
    with Env(**env):
        c = Config(cfg, service_name='x')
        if opt in ('reporter_batch_size', 'reporter_queue_size') and how == 'bad':
            got, e = E.outcome(lambda: getattr(c, opt))
            E.check(isinstance(e, (ValueError, TypeError)), 'number', 'a value that is no number is accepted')
            return
        got = getattr(c, ATTR.get(opt, opt))
    if how == 'nogroup' and group == 'throttler':
        E.check(got is None, 'number', 'throttler configured by nothing')
        return
    E.check(got == want, 'number', 'option %s differs' % opt)
    E.reach('number')


def host(E):
    env, cfg = {}, {}
    k = E.choose('given', 4)
    h, x = E.str('host', 3), E.str('env_host', 3)
    if k == 1:
        cfg = {'local_agent': {}}
    elif k == 2:
        cfg = {'local_agent': {'reporting_host': h}}
    elif k == 3:
        cfg = {'local_agent': None}
    if E.choose('env', 2):
        env['JAEGER_AGENT_HOST'] = x
    with Env(**env):
        got = Config(cfg, service_name='x').local_agent_reporting_host
    want = h if k == 2 else x if env else 'localhost'
    E.check(got == want, 'env', 'host differs')


def service(E):
    p = E.pick('param', [None, '', 'p'])
    cfg = {}
    if E.choose('given', 2):
        cfg['service_name'] = E.pick('v', [None, '', 'c'])
    with Env():
        c, e = E.outcome(lambda: Config(cfg, service_name=p))
    want = cfg['service_name'] if cfg else p
    if not want:
        E.check(isinstance(e, ValueError), 'service', 'a missing service name is accepted')
    else:
        E.check(e is None and c.service_name == want, 'service', 'service name differs')


def sampler(E, kind):
    with Env():
        if kind == 'none':
            cfg = E.pick('cfg', [{}, {'sampler': {}}, {'sampler': {'type': None}}, {'sampler': {'type': '', 'param': 1}}])
            E.check(Config(cfg, service_name='x').sampler is None, 'sampler', 'sampler out of nothing')
        elif kind == 'object':
            s = ConstSampler(False)
            E.check(Config({'sampler': s}, service_name='x').sampler is s, 'sampler', 'given sampler not used')
        elif kind == 'prob':
            r = E.float('rate', nan=True, inf=True)
            s, e = E.outcome(lambda: Config({'sampler': {'type': 'probabilistic', 'param': r}}, service_name='x').sampler)
            if E.And(r >= 0, r <= 1):
                E.check(e is None, 'sampler', 'valid rate refused')
                E.check(isinstance(s, ProbabilisticSampler), 'sampler', 'another sampler')
                E.check(s.rate == r, 'sampler', 'rate differs')
                i = E.int('id', 0, U128)
                a, b = s.is_sampled(i), ProbabilisticSampler(r).is_sampled(i)
                E.check(bool(a[0]) == bool(b[0]), 'sampler', 'decision differs')
            else:
                E.check(e is not None, 'sampler', 'invalid rate accepted')
        elif kind == 'text':
            t, p, cls, val = E.pick('cfg', [('probabilistic', '0.5', ProbabilisticSampler, 0.5), ('probabilistic', '1', ProbabilisticSampler, 1.0), ('ratelimiting', '2', RateLimitingSampler, 2.0), ('rate_limiting', '2.5', RateLimitingSampler, 2.5)])
            s = Config({'sampler': {'type': t, 'param': p}}, service_name='x').sampler
            E.check(isinstance(s, cls), 'sampler', 'another sampler')
            E.check(s.is_sampled(1)[1]['sampler.param'] == val, 'sampler', 'parameter differs')
        elif kind == 'rate':
            E.set_clock(lambda: 1.0)
            E.symbolic_random(real=True)
            m = E.real('mtps', 0, 1000)
            s = Config({'sampler': {'type': E.pick('type', ['ratelimiting', 'rate_limiting']), 'param': m}}, service_name='x').sampler
            E.check(isinstance(s, RateLimitingSampler), 'sampler', 'another sampler')
            E.check(s.is_sampled(1)[1]['sampler.param'] == m, 'sampler', 'limit differs')
        else:
            t = E.pick('type', ['remote', 'Const', 'x', 'bad-sampler', 5])
            s, e = E.outcome(lambda: Config({'sampler': {'type': t, 'param': 1}}, service_name='x').sampler)
            E.check(isinstance(e, ValueError), 'sampler', 'unknown sampler type accepted')


def validate(E, n):
    if n == 0:
        k = E.pick('key', KEYS)
        cfg = {k: {'tags': {}, 'sampler': {}, 'local_agent': {}, 'throttler': {}}.get(k, '5')}
        known = True
    else:
        k = E.str('key', n)
        cfg = {k: 1}
        known = False
    if E.choose('more', 2):
        cfg['logging'] = True
        cfg['tags'] = {'a': 1}
    with Env():
        c, e = E.outcome(lambda: Config(cfg, service_name='x', validate=True))
        c2, e2 = E.outcome(lambda: Config(cfg, service_name='x'))
    E.check(e2 is None, 'validate', 'refused without validation')
    if known:
        E.check(e is None, 'validate', 'documented key %s refused' % k)
    else:
        E.check(isinstance(e, ValueError), 'validate', 'unknown key accepted')
    E.reach('validate')


def tags(E, how):
    """configured and environment tags; the configuration is left alone"""
    cfg = {'tags': {'a': 1, 'k': 'v'}} if E.choose('given', 2) else {}
    before = copy.deepcopy(cfg)
    if how == 'symbolic':
        x, y = E.str('x', 2, chars=[(0x62, 0x6a)]), E.str('y', 2, chars=[(0x21, 0x2b), (0x2d, 0x7e)])
        sp = E.pick('blank', ['', ' '])
        env = 'zz=1,' + sp + x + sp + '=' + sp + y + sp
        want = {'zz': '1', x: y}
    else:
        env, want = E.pick('env', [('', {}), ('q=w', {'q': 'w'}), ('q=w,e=r', {'q': 'w', 'e': 'r'}), (' q = w , e = r ', {'q': 'w', 'e': 'r'}), ('q=', {'q': ''}), ('q=w=x', {'q': 'w=x'}), ('q=w,', {'q': 'w'}), (',q=w', {'q': 'w'}),
                                   ('q=w,,e=r', {'q': 'w', 'e': 'r'})])
    with Env(**({'JAEGER_TAGS': env} if E.choose('env', 2) or how == 'symbolic' else {})):
        if 'JAEGER_TAGS' not in os.environ:
            want = {}
        c = Config(cfg, service_name='x')
        got = c.tags
        again = c.tags
    want = dict(before.get('tags', {}), **want) if how != 'symbolic' else want
    n = len(want) + (len(before.get('tags', {})) if how == 'symbolic' else 0)
    E.check(len(got) == n, 'tags', 'number of tags differs')
    for k in want:
        E.check(k in got, 'tags', 'tag lost')
        E.check(got[k] == want[k], 'tags', 'tag differs')
    E.check(len(again) == n, 'tags', 'tags differ the second time')
    E.check(cfg == before, 'unchanged', 'the configuration is changed')
    E.reach('tags')


class Http(object):
    """stands in for the HTTP client"""
    urls = []

    def __init__(self, *a, **k):
        pass

    def fetch(self, url, *a, **k):
        f = Future()
        Http.urls.append((url, f))
        return f


def tracer(E):
    """a tracer made from a configuration behaves as configured"""
    import socket
    lp = Loop(E)
    E.set_random(lambda kind, *a: 0.5 if kind == 'random' else (1 << a[0]) - 1 if kind == 'getrandbits' else 9)
    E.set_clock(lp.v.time)
    cfg = {'sampler': {'type': 'const', 'param': True}}
    exp = {'host': 'localhost', 'port': 6831, 'sport': 5778, 'header': 'uber-trace-id', 'prefix': 'uberctx-', 'debug': 'jaeger-debug-id', 'len': 1024, 'wide': False, 'batch': 10, 'queue': 100, 'flush': 1}
    k = E.choose('config', 13)
    env = {}
    if k == 1:
        cfg['local_agent'] = {'reporting_host': 'h', 'reporting_port': '99', 'sampling_port': 98}
        exp.update(host='h', port=99, sport=98)
    elif k == 2:
        cfg.update(trace_id_header='My-Trace', baggage_header_prefix='My-Bag-', debug_id_header='My-Debug')
        exp.update(header='my-trace', prefix='my-bag-', debug='my-debug')
    elif k == 3:
        cfg['max_tag_value_length'] = 3
        exp['len'] = 3
    elif k == 4:
        cfg['generate_128bit_trace_id'] = True
        exp['wide'] = True
    elif k == 5:
        cfg.update(reporter_batch_size=2, reporter_queue_size='3')
        exp.update(batch=2, queue=3)
    elif k == 6:
        cfg['reporter_flush_interval'] = 7
        exp['flush'] = 7
    elif k == 7:
        env.update(JAEGER_AGENT_HOST='eh', JAEGER_AGENT_PORT='77', JAEGER_TAGS='et=ev', JAEGER_TRACEID_128BIT='true')
        exp.update(host='eh', port=77, wide=True)
    elif k == 8:
        cfg['logging'] = True
    elif k == 9:
        cfg['tags'] = {'ct': 'cv'}
    elif k == 10:
        cfg['propagation'] = 'b3'
    elif k == 11:
        cfg['throttler'] = {'port': 97, 'refresh_interval': 4}
    elif k == 12:
        cfg['sampler'] = {}
        cfg['sampling_refresh_interval'] = 30
        cfg['max_operations'] = 2
    before = copy.deepcopy(cfg)
    real = (socket.socket, socket.getaddrinfo, tornado.httpclient.AsyncHTTPClient, socket.gethostbyname, socket.gethostname)
    socket.socket, socket.getaddrinfo = Sock, lambda *a, **kw: [(2, 2, 17, '', ('127.0.0.1', 6831))]
    socket.gethostbyname, socket.gethostname = lambda h: '10.1.2.3', lambda: 'hn'
    tornado.httpclient.AsyncHTTPClient = Http
    Sock.sent, Sock.fail, Http.urls = [], [], []
    m = Counters()
    try:
        with Env(**env):
            c = Config(cfg, service_name='svc', metrics_factory=m, validate=True)
            t = c.new_tracer(io_loop=lp.io)
            lp.run()
            E.check(t.service_name == 'svc', 'tracer', 'service name differs')
            if k == 12:
                lp.advance(30.0)
                E.check([u for u, f in Http.urls] == ['http://localhost:5778/sampling?service=svc'], 'tracer', 'sampling requests: %s' % [u for u, f in Http.urls])
                Http.urls[0][1].set_result(Response(b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.0}}'))
                lp.run()
                E.check(t.sampler.is_sampled(U64)[0], 'tracer', 'remote strategy not used')
            if k == 11:
                lp.advance(4.0)
                E.check(not t.is_debug_allowed('op'), 'tracer', 'no throttler')
                lp.advance(4.0)
                us = [u for u, f in Http.urls]
                E.check(len(us) == 1 and us[0].startswith('http://localhost:97/credits?service=svc&uuid=') and us[0].endswith('operations=op'), 'tracer', 'credit requests: %s' % us)
            else:
                E.check(t.is_debug_allowed('op'), 'tracer', 'debug spans throttled')
            sp = t.start_span('op')
            E.check((sp.trace_id >= 1 << 64) == exp['wide'], 'tracer', 'trace id width differs')
            sp.set_tag('k', 'v' * 2000)
            sp.set_baggage_item('b', 'w')
            car = {}
            t.inject(sp.context, Format.HTTP_HEADERS, car)
            if k == 10:
                E.check('X-B3-TraceId' in car, 'tracer', 'no B3 headers')
            else:
                E.check(exp['header'] in [x.lower() for x in car], 'tracer', 'trace header not used')
                E.check(car[[x for x in car if x.lower() == exp['prefix'] + 'b'][0]] == 'w', 'tracer', 'baggage header not used')
                d = t.start_span('dbg', child_of=t.extract(Format.HTTP_HEADERS, {exp['debug']: 'corr'}))
                if k != 11:
                    E.check([x.vStr for x in d.tags if x.key.lower() == exp['debug']] == ['corr'[:exp['len']]], 'tracer', 'debug header not used')
            sp.finish()
            lp.run()
            E.check(not Sock.sent, 'tracer', 'sent before the interval')
            lp.advance(exp['flush'] - 0.5)
            E.check(not Sock.sent, 'tracer', 'sent before the interval')
            lp.advance(0.5)
            E.check(len(Sock.sent) == 1, 'tracer', 'not sent after the interval')
            E.check(Sock.sent[0][1] == (exp['host'], exp['port']), 'tracer', 'sent to %s' % (Sock.sent[0][1],))
            from thrift.protocol.TCompactProtocol import TCompactProtocol
            from thrift.transport.TTransport import TMemoryBuffer
            from jaeger_client.thrift_gen.agent import Agent
            p = TCompactProtocol(TMemoryBuffer(Sock.sent[0][0]))
            p.readMessageBegin()
            a = Agent.emitBatch_args()
            a.read(p)
            pt = {x.key: x.vStr for x in a.batch.process.tags}
            E.check(a.batch.process.serviceName == 'svc', 'tracer', 'service name differs')
            if k == 9:
                E.check(pt.get('ct') == 'cv', 'tracer', 'configured tag missing')
            if k == 7:
                E.check(pt.get('et') == 'ev', 'tracer', 'environment tag missing')
            v = [x.vStr for x in a.batch.spans[0].tags if x.key == 'k'][0]
            E.check(v == 'v' * exp['len'], 'tracer', 'tag length differs')
            n = exp['queue'] + exp['batch'] + 5
            for i in range(n):
                t.start_span('x', child_of=sp).finish()
            lp.run()
            E.check(m.get('jaeger:reporter_spans', result='dropped') > 0, 'tracer', 'queue size differs')
            lp.advance(50.0)
            sent = m.get('jaeger:reporter_spans', result='ok') - 1
            E.check(sent + m.get('jaeger:reporter_spans', result='dropped') == n, 'tracer', 'spans lost')
            E.check(exp['queue'] <= sent <= exp['queue'] + exp['batch'], 'tracer', 'queue size differs: %s sent' % sent)
            p = TCompactProtocol(TMemoryBuffer(Sock.sent[1][0]))
            p.readMessageBegin()
            a = Agent.emitBatch_args()
            a.read(p)
            E.check(len(a.batch.spans) == exp['batch'], 'tracer', 'batch size differs')
    finally:
        socket.socket, socket.getaddrinfo, tornado.httpclient.AsyncHTTPClient, socket.gethostbyname, socket.gethostname = real
    E.check(cfg == before, 'unchanged', 'the configuration is changed')
    E.check(not lp.errors, 'raises', lp.errors[0] if lp.errors else '')
    E.reach('tracer')


def scenarios(tier):
    out = [('env128', env128, dict(n=0)), ('env128-text', env128, dict(n=4)), ('host', host, {}), ('service', service, {}), ('tags', tags, dict(how='listed')), ('tags-text', tags, dict(how='symbolic')), ('tracer', tracer, {})]
    for o in ('enabled', 'logging', 'generate_128bit_trace_id', 'local_agent', 'sampler', 'metrics'):
        for n in range(-1, 6):
            out.append(('bool-%s%d' % (o, n), boolean, dict(opt=o, n=n)))
    for o in sorted(DEFAULTS):
        out.append(('plain-' + o, plain, dict(opt=o)))
    for o in sorted(NUM):
        for h in ('absent', 'int', 'text', 'bad', 'nogroup'):
            out.append(('number-%s-%s' % (o, h), number, dict(opt=o, how=h)))
    for k in ('none', 'object', 'prob', 'text', 'rate', 'bad'):
        out.append(('sampler-' + k, sampler, dict(kind=k)))
    for n in range(4):
        out.append(('validate%d' % n, validate, dict(n=n)))
    return out
