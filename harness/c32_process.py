"""C32 every batch describes the process: service, client version, host, address, client id and the application's tags."""
import fcntl
import socket
import sys
from jaeger_client import constants
from jaeger_client.reporter import CompositeReporter, Reporter
from jaeger_client.thrift_gen.jaeger.ttypes import TagType
from harness.common import *
from harness.vloop import Loop, Channel, Future

BOUNDS = ('service names and texts of 0..3 (thorough 5) Unicode characters, numbers in [-2^63, 2^63), booleans; up to two tags of the application, each possibly named like one the client sets itself; maximum tag length 0..6 '
          'and 1024; client ids 0..sys.maxsize; host name lookups that work, fail, or give loopback addresses; every one of the nine interfaces or none; two batches in a row; one reporter or two; 42 tags and long names')
ASSUMPTIONS = ['name lookups, sockets and interface requests are stand-ins; localhost resolves', 'nothing is said about the address when none can be found']
REACH = ['plain', 'own', 'throttler', 'lookup', 'interface', 'socket', 'nohost', 'cut']
IFACES = ['eth0', 'eth1', 'eth2', 'en0', 'en1', 'en2', 'wlan0', 'wlan1', 'wlan2']


class Net(object):
    """stands in for the host's network"""

    def __init__(self, name='hn', resolved='10.1.2.3', have=(), route='10.9.9.9', local='127.0.0.1'):
        self.name, self.resolved, self.have, self.route, self.local = name, resolved, have, route, local

    def hostname(self):
        if self.name is None:
            raise OSError('no name')
        return self.name

    def byname(self, h):
        if h == 'localhost' and self.name != 'localhost':
            return self.local
        if self.resolved is None:
            raise socket.gaierror('not found')
        return self.resolved

    def ioctl(self, fd, op, arg, *a):
        n = arg[:16].rstrip(b'\0').decode()
        if n in self.have:
            return b'\0' * 20 + bytes([10, 0, 0, 1 + IFACES.index(n)]) + b'\0' * 232
        raise OSError('no such device')

    def __enter__(self):
        net = self

        class Sock(object):
            def __init__(self, *a, **k):
                pass

            def connect(self, to):
                if net.route is None:
                    raise OSError('no route')

            def getsockname(self):
                return (net.route, 5)

            def fileno(self):
                return 5

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        self.saved = (socket.socket, socket.gethostname, socket.gethostbyname, fcntl.ioctl)
        socket.socket, socket.gethostname, socket.gethostbyname, fcntl.ioctl = Sock, self.hostname, self.byname, self.ioctl
        return self

    def __exit__(self, *a):
        socket.socket, socket.gethostname, socket.gethostbyname, fcntl.ioctl = self.saved


def batches(E, n, two=False, **k):
    """the batches that n finished spans are sent in, one each, and the throttler's client id"""
    lp = Loop(E)
    E.set_clock(lp.v.time)
    got = []

    def send(batch):
        got.append(batch)
        f = Future()
        f.set_result(None)
        return f
    rs = []
    for i in range(2 if two else 1):
        r = Reporter(channel=Channel(lp.io), io_loop=lp.io, batch_size=1)
        r._send = send
        rs.append(r)
    rep = CompositeReporter(*rs) if two else rs[0]
    t = Tracer(reporter=rep, sampler=ConstSampler(True), **k)
    lp.run()
    for i in range(n):
        t.start_span('op', child_of=SpanContext(1, 2, 3, 1), tags={'other': 'tag'}).finish()
        lp.run()
    E.check(len(got) == n * len(rs), 'batch', 'number of batches differs')
    return got, t


def cut(s, n):
    if len(s) > n:
        k = 0
        while k < n:
            k += 1
        return s[:k]
    return s


def exact(E, process, svc, want, maxlen, label='tags'):
    """the process has this name and exactly these tags"""
    E.check(process.serviceName == svc, 'service', 'service name differs')
    seen = []
    for t in process.tags:
        if t.key in seen:
            E.fail(label, 'tag %s twice' % t.key)
        seen.append(t.key)
        if t.key not in want:
            E.fail(label, 'tag %s out of nothing' % t.key)
            continue
        v = want[t.key]
        if isinstance(v, bool):
            E.check(t.vType == TagType.BOOL and t.vBool == v, label, 'tag %s differs' % t.key)
        elif isinstance(v, int):
            E.check(t.vType == TagType.LONG and t.vLong == v, label, 'tag %s differs' % t.key)
        elif isinstance(v, float):
            E.check(t.vType == TagType.DOUBLE and t.vDouble == v, label, 'tag %s differs' % t.key)
        elif v is not Ellipsis:
            E.check(t.vType == TagType.STRING, label, 'tag %s differs' % t.key)
            c = cut(v, maxlen)
            if len(c) < len(v):
                E.reach('cut')
            E.check(t.vStr == c, label, 'tag %s differs' % t.key)
    for k in want:
        E.check(k in seen or want[k] is Ellipsis, label, 'tag %s lost' % k)


def tags(E, kind, n, thr):
    svc = E.str('service', n)
    E.set_random(lambda k, *a: 1 if k != 'randint' else E.int('rand', *a))
    maxlen = E.int('maxlen', 0, 6) if n else 1024
    want = {constants.JAEGER_VERSION_TAG_KEY: constants.JAEGER_CLIENT_VERSION, 'hostname': 'hn', 'ip': '10.1.2.3'}
    own = {}
    for i in range(2):
        k = E.pick('key%d' % i, ['', 'a', 'hostname', 'ip', 'client-uuid', constants.JAEGER_VERSION_TAG_KEY] if i == 0 else ['', 'b'])
        if not k:
            continue
        if i or kind == 'text':
            v = E.str('text%d' % i, n)
        elif kind == 'int':
            v = E.int('num', -(1 << 63), (1 << 63) - 1)
        elif kind == 'bool':
            v = E.bool('flag')
        else:
            v = E.pick('other', [1.5, None, False, 0])
        own[k] = want[k] = v
        if v is None:
            want[k] = {'hostname': 'hn', 'ip': '10.1.2.3'}.get(k, 'None')
    if own:
        E.reach('own')
    given = dict(own)
    th = StubThrottler(True) if thr else None
    with Net():
        got, t = batches(E, 2, two=n == 0 and kind == 'text', service_name=svc, tags=own if own or E.choose('tags', 2) else None, max_tag_value_length=maxlen, throttler=th)
    if th:
        E.check(isinstance(th.client_id, int) and 0 <= th.client_id <= sys.maxsize, 'client', 'no client id')
        want['client-uuid'] = th.client_id
        E.reach('throttler')
    for b in got:
        exact(E, b.process, svc, want, maxlen)
    E.check(sorted(own) == sorted(given) and all(own[k] is given[k] for k in given), 'untouched', 'the tags given are changed')
    E.reach('plain')


def lookup(E, what):
    net = Net()
    ip = net.resolved
    if what == 'resolved':
        net.resolved = ip = E.str('addr', 5, chars=[(0x2e, 0x2e), (0x30, 0x39)])
        if ip.startswith('127.'):
            ip = net.route
    elif what == 'nohost':
        net.name = None
        ip = net.route
        E.reach('nohost')
    elif what == 'notfound':
        net.resolved, ip = None, net.route
    elif what == 'localhost':
        # the loopback name leads to another address
        net.resolved, net.local = None, '10.7.7.7'
        ip = net.local
    else:
        net.resolved = E.pick('loopback', ['127.0.0.1', '127.0.1.1'])
        first = E.choose('first', len(IFACES) + 1)
        net.have = IFACES[first:first + 1]
        if first < len(IFACES) - 1 and E.choose('more', 2):
            net.have = [IFACES[first], IFACES[E.pick('second', list(range(first + 1, len(IFACES))))]]
        if first < len(IFACES):
            ip = '10.0.0.%d' % (1 + first)
            net.route = E.pick('route', [None, '10.9.9.9'])
            E.reach('interface')
        else:
            net.route = E.pick('route', [None, '10.9.9.9'])
            ip = net.route or Ellipsis
            E.reach('socket')
    given = {}
    host = net.name
    if E.choose('given', 2):
        given['ip'] = ip = 'my ip'
    if E.choose('named', 2):
        given['hostname'] = host = 'my host'
    want = {constants.JAEGER_VERSION_TAG_KEY: constants.JAEGER_CLIENT_VERSION, 'ip': ip}
    if host is not None:
        want['hostname'] = host
    with net:
        got, t = batches(E, 1, service_name='svc', tags=given)
    exact(E, got[0].process, 'svc', want, 1024, 'lookup')
    E.reach('lookup')


def separate(E):
    """tracers do not share their descriptions"""
    E.set_random(lambda k, *a: 1 if k != 'randint' else E.int('rand', *a))
    th = StubThrottler(True)
    shared = {'a': 'x'}
    base = {constants.JAEGER_VERSION_TAG_KEY: constants.JAEGER_CLIENT_VERSION, 'hostname': 'hn', 'ip': '10.1.2.3'}
    with Net():
        g1, t1 = batches(E, 1, service_name='one', tags=shared, throttler=th)
        g2, t2 = batches(E, 1, service_name='two', tags=shared)
        g3, t3 = batches(E, 1, service_name='three')
    exact(E, g1[0].process, 'one', dict(base, a='x', **{'client-uuid': th.client_id}), 1024, 'separate')
    exact(E, g2[0].process, 'two', dict(base, a='x'), 1024, 'separate')
    exact(E, g3[0].process, 'three', base, 1024, 'separate')
    E.check(shared == {'a': 'x'}, 'untouched', 'the tags given are changed')


def many(E):
    """long names and many tags"""
    svc = E.pick('service', ['s', 'long service name ' * 20, 'ÄÖ/%&'])
    n = E.pick('count', [0, 1, 40])
    own = dict(('tag %d' % i, i if i % 2 else 'text %d' % i) for i in range(n))
    own['last'] = E.int('num', -(1 << 63), (1 << 63) - 1)
    own['long key ' * 20] = 'x' * 1024
    with Net(name=E.pick('host', ['h' * 63, 'hn.example.org'])) as net:
        got, t = batches(E, 2, service_name=svc, tags=own)
    want = dict(own, ip='10.1.2.3', hostname=net.name)
    want[constants.JAEGER_VERSION_TAG_KEY] = constants.JAEGER_CLIENT_VERSION
    for b in got:
        exact(E, b.process, svc, want, 1024)


def scenarios(tier):
    r = [('separate', separate, {}), ('many', many, {})]
    for thr in (False, True):
        for kind in ('text', 'int', 'bool', 'other'):
            for n in range(6 if tier == 'thorough' else 4):
                if n and kind != 'text':
                    continue
                r.append(('tags-%s%d%s' % (kind, n, '-throttler' if thr else ''), tags, dict(kind=kind, n=n, thr=thr)))
    for w in ('resolved', 'nohost', 'notfound', 'localhost', 'loopback'):
        r.append(('lookup-%s' % w, lookup, dict(what=w)))
    return r
