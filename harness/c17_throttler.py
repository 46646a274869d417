"""C17 debug-span throttling never spends more than the agent granted."""
from jaeger_client.throttler import RemoteThrottler
from harness.common import *
from harness.vloop import Loop, Channel, Counters, Response

THREADS = True
BOUNDS = ('histories of 4 (thorough 5) events out of: ask for an operation (3 names, symbolic short texts in one scenario), a response granting symbolic balances (any real in [-3, 5]) to one or two operations, a failed or malformed '
          'response, a timer tick; 17 bodies that are no JSON, 6 errors with and without a status code, documents with one of 8 positions removed or replaced by one of 17 odd values; answers arriving out of order; one history of 150 operations and a grant of 1000; two grants of up to 1012 together, spent in turn; two threads asking (one or two calls each) for the same or for different, known or new operations while the loop thread takes an answer, every schedule with at most 2 (three threads: 1; thorough 3 and 2) preemptions')
ASSUMPTIONS = ['the agent channel is a stub', 'balances as exact reals (decisions closer than 1e-6 to a whole credit are left open)', 'a preemption happens only where the code accesses an attribute or container that some code changes, or takes a lock']
REACH = ['allowed', 'refused', 'unknown', 'granted', 'failure', 'text', 'odd', 'requested', 'thread']
EPS = 1e-6
OPS = ['a', 'b', '']


class Sut(object):
    def __init__(self, E, client=True):
        self.E = E
        self.lp = Loop(E)
        E.set_random(lambda kind, *a: 0.5)
        self.ch, self.m = Channel(self.lp.io), Counters()
        self.t = RemoteThrottler(self.ch, 'svc', refresh_interval=10, metrics_factory=self.m)
        if client:
            self.t.set_client_id(77)
        self.granted, self.spent = {}, {}
        self.known = []
        self.refused = 0
        self.lp.run()

    def ask(self, op):
        E = self.E
        got = self.t.is_allowed(op)
        left = self.granted.get(op, 0.0) - self.spent.get(op, 0)
        if got:
            E.reach('allowed')
            E.check(left >= 1 - EPS, 'budget', 'allowed without credit')
            self.spent[op] = self.spent.get(op, 0) + 1
        else:
            E.reach('refused')
            self.refused += 1
            E.check(left < 1 + EPS, 'budget', 'refused although credit is left')
        E.check(self.m.get('jaeger:throttled_debug_spans') == self.refused, 'counted', 'refusals counted wrongly')
        if op not in self.known:
            self.known.append(op)
            E.reach('unknown')
        return got

    def grant(self, op, v):
        self.granted[op] = self.granted.get(op, 0) + v
        if op not in self.known:
            self.known.append(op)

    def counts(self):
        return [self.m.get('jaeger:throttler_update', result='ok'), self.m.get('jaeger:throttler_update', result='err')]

    def poll(self):
        """the next credit request"""
        n = len(self.ch.credits)
        k = 0
        while len(self.ch.credits) == n and k < 30:
            if not self.lp.fire():
                break
            k += 1
        self.E.check(len(self.ch.credits) == n + 1, 'polls', 'no credit request')
        svc, client, ops, f = self.ch.credits[-1]
        self.E.check(svc == 'svc' and client == 77, 'request', 'request names another service or client')
        ops = list(ops)
        self.E.check(sorted(ops) == sorted(self.known), 'request', 'request for %s, known are %s' % (ops, self.known))
        self.E.reach('requested')
        return f

    def answer(self, f, response=None, error=None):
        before = self.counts()
        if error is not None:
            f.set_exception(error)
        else:
            f.set_result(response)
        self.lp.run()
        self.E.check(not self.lp.errors, 'raises', self.lp.errors[0] if self.lp.errors else '')
        d = [x - y for x, y in zip(self.counts(), before)]
        self.E.check(d in ([1, 0], [0, 1]), 'counted', 'response not counted exactly once: %s' % d)
        return d == [1, 0]


def doc(*ops):
    return {'balances': [{'operation': o, 'balance': v} for o, v in ops]}


def history(E, steps):
    u = Sut(E)
    u.ask('a')
    for i in range(steps):
        a = E.pick('step%d' % i, ['a', 'b', 'grant-a', 'grant-ab', 'grant-c', 'bad'])
        if a in ('a', 'b'):
            u.ask(a)
        elif a == 'bad':
            E.reach('failure')
            if E.choose('how%d' % i, 2):
                ok = u.answer(u.poll(), error=OSError(111, 'refused'))
            else:
                ok = u.answer(u.poll(), Response(b'{"bad": 1}'))
            E.check(not ok, 'counted', 'a bad response is counted as success')
        else:
            E.reach('granted')
            ops = a[6:]
            gs = [(o, E.real('bal%d%s' % (i, o), -3, 5)) for o in ops]
            ok = u.answer(u.poll(), Response(E.json(doc(*gs))))
            E.check(ok, 'counted', 'a good response is counted as failure')
            for o, v in gs:
                u.grant(o, v)
    for o in OPS:
        u.ask(o)
    u.poll()


def many(E, n):
    """nothing is capped: many operations, a large balance"""
    u = Sut(E)
    for i in range(n):
        u.ask('op%d' % i)
    v = E.real('bal', -1, 3)
    last = 'op%d' % (n - 1)
    u.answer(u.poll(), Response(E.json(doc(*[('op%d' % i, v if i == n - 1 else 1.0) for i in range(n)]))))
    for i in range(n):
        u.grant('op%d' % i, v if i == n - 1 else 1.0)
    for op in ('op0', 'op%d' % (n // 2), last):
        while u.ask(op):
            pass
    u.answer(u.poll(), Response(E.json(doc(('op0', 1000)))))
    u.grant('op0', 1000)
    for i in range(1001):
        u.ask('op0')
    u.poll()


def hoard(E):
    """credit of several answers adds up, however much it is"""
    u = Sut(E)
    u.ask('a')
    v = E.real('bal', 990, 1000)
    w = E.real('bal2', 0, 12)
    for x in (v, w):
        u.answer(u.poll(), Response(E.json(doc(('a', x)))))
        u.grant('a', x)
        u.ask('a')
    for i in range(986):
        E.check(u.t.is_allowed('a'), 'budget', 'refused although credit is left')
    u.spent['a'] += 986
    n = 0
    while n < 27 and u.ask('a'):
        n += 1
    u.poll()


def drain(E):
    """one arbitrary grant is spent exactly"""
    u = Sut(E)
    u.ask('a')
    v = E.real('bal', -3, 9)
    w = E.real('bal2', -3, 3)
    u.answer(u.poll(), Response(E.json(doc(('a', v), ('b', 2.0)))))
    u.grant('a', v)
    u.grant('b', 2.0)
    n = 0
    while n < 13 and u.ask('a'):
        n += 1
    u.answer(u.poll(), Response(E.json(doc(('a', w)))))
    u.grant('a', w)
    n = 0
    while n < 13 and u.ask('a'):
        n += 1
    E.check([u.ask('b'), u.ask('b'), u.ask('b')] == [True, True, False], 'budget', 'operations influence each other')


def names(E):
    """operation names are arbitrary texts; the same name shares its credit, others do not"""
    u = Sut(E)
    x, y = E.str('x', 2), E.str('y', 2)
    u.answer_doc = None
    E.check(not u.t.is_allowed(x), 'budget', 'allowed without credit')
    u.lp.run()
    k = 0
    while not u.ch.credits and k < 30 and u.lp.fire():
        k += 1
    E.check(len(u.ch.credits) == 1, 'polls', 'no credit request')
    ops = list(u.ch.credits[0][2])
    E.check(len(ops) == 1, 'request', 'wrong operations asked')
    E.check(ops[0] == x, 'request', 'wrong operations asked')
    u.answer(u.ch.credits[0][3], Response(E.json(doc((x, 1)))))
    if x == y:
        E.check(u.t.is_allowed(y), 'budget', 'refused although credit is left')
        E.check(not u.t.is_allowed(x), 'budget', 'allowed without credit')
    else:
        E.check(not u.t.is_allowed(y), 'budget', 'allowed without credit')
        E.check(u.t.is_allowed(x), 'budget', 'refused although credit is left')
    E.check(not u.t.is_allowed(x), 'budget', 'allowed without credit')


def order(E):
    """two requests under way, answered in any order; calls in between"""
    u = Sut(E)
    u.ask('a')
    f1 = u.poll()
    u.ask('b')
    f2 = u.poll()
    seen = [list(c[2]) for c in u.ch.credits]
    E.check(seen == [['a'], ['a', 'b']], 'request', 'operations of an earlier request change')
    todo = [(f1, 'a'), (f2, 'b')]
    if E.choose('order', 2):
        todo.reverse()
    for i, (f, o) in enumerate(todo):
        v = E.real('bal%d' % i, 0, 3)
        w = E.real('bal_a%d' % i, 0, 2)
        gs = [(o, v), ('a', w)]
        E.check(u.answer(f, Response(E.json(doc(*gs)))), 'counted', 'a good response is counted as failure')
        for op, b in gs:
            u.grant(op, b)
        u.ask('a')
        u.ask('b')
        u.ask('a')


BODIES = [b'', b'\xff\xfe', b'{', b'nope', b'null', b'[]', b'[1, 2]', b'1', b'"x"', u'{"a"', None, b'\xef\xbb\xbf{}', b'[' * 100000, 5, b'true', u'{}', b'\x80abc']


def text(E):
    u = Sut(E)
    u.ask('a')
    u.answer(u.poll(), Response(E.json(doc(('a', 1.5)))))
    u.grant('a', 1.5)
    k = E.choose('kind', 2)
    if k:
        ok = u.answer(u.poll(), error=E.pick('error', [http_error(304), http_error(404), http_error(500), coded(200), KeyError(), TimeoutError()]))
    else:
        ok = u.answer(u.poll(), Response(E.pick('body', BODIES)))
    E.check(not ok, 'counted', 'a malformed response is counted as success')
    E.reach('text')
    for o in ('a', 'a', 'b'):
        u.ask(o)


JUNK = [None, True, 'x', '', [], [1], {}, {'a': 1}, -1, 1.5, float('inf'), float('-inf'), float('nan'), 10 ** 400, 0, [{}], '3']
POS = ['doc', 'balances', 'item', 'operation', 'balance', 'operation2', 'balance2', 'extra']


def odd(E):
    u = Sut(E)
    u.ask('a')
    k = E.choose('junk', len(JUNK) + 1)
    gone = k == len(JUNK)
    v = None if gone else JUNK[k]
    d = doc(('a', 1.0), ('b', 1.0))
    pos = E.pick('pos', POS)
    if pos == 'doc':
        d = {} if gone else v
    elif pos == 'extra':
        d['extra'] = v
    elif pos == 'balances':
        if gone:
            del d[pos]
        else:
            d[pos] = v
    elif pos == 'item':
        if gone:
            d['balances'].pop()
        else:
            d['balances'][1] = v
    else:
        i = 1 if pos.endswith('2') else 0
        key = pos.rstrip('2')
        if gone:
            del d['balances'][i][key]
        else:
            d['balances'][i][key] = v
    u.answer(u.poll(), Response(E.json(d)))
    E.reach('odd')
    grant = {}
    try:
        for x in d['balances']:
            b = x['balance']
            grant[x['operation']] = grant.get(x['operation'], 0) + b
    except Exception:
        pass
    for op in ('a', 'b'):
        n = 0
        while n < 4 and u.t.is_allowed(op):
            n += 1
        g = grant.get(op, 0)
        if n and not (g >= n):
            E.fail('budget', 'allowed %d for a balance of %r' % (n, g))
    # a good response afterwards is taken
    E.check(not u.lp.errors, 'raises', u.lp.errors[0] if u.lp.errors else '')
    n = 0
    while len(u.ch.credits) < 2 and n < 5 and u.lp.fire():
        n += 1
    E.check(len(u.ch.credits) == 2, 'polls', 'no credit request')
    ok = u.answer(u.ch.credits[1][3], Response(E.json(doc(('fresh', 1.0)))))
    E.check(ok, 'counted', 'a good response is counted as failure')
    E.check(u.t.is_allowed('fresh'), 'budget', 'refused although credit is left')
    E.check(not u.t.is_allowed('fresh'), 'budget', 'allowed without credit')


def client_id(E):
    """the client id set by the tracer is the one sent, and the first one stays"""
    lp = Loop(E)
    E.set_random(lambda kind, *a: 0.5 if kind == 'random' else 5)
    ch = Channel(lp.io)
    t = RemoteThrottler(ch, 'svc', refresh_interval=10)
    E.symbolic_random(real=True)
    i = E.int('id', 1, U64)
    t.set_client_id(i)
    t.set_client_id(7)
    t.is_allowed('op')
    lp.run()
    lp.fire()
    E.check(len(ch.credits) == 1, 'polls', 'no credit request')
    E.check(ch.credits[0][1] == i, 'request', 'client id differs')


def threads(E, asks, answer, bound):
    """threads ask while the event loop takes an answer: what is granted can be spent once, not less and not more"""
    u = Sut(E)
    v = E.real('bal', 0, 3)
    if 'k' not in asks:
        u.ask('a')
        E.check(u.answer(u.poll(), Response(E.json(doc(('a', v))))), 'counted', 'a good response is counted as failure')
        u.grant('a', v)
    else:
        u.ask('z')
        asks = [x.replace('k', 'a') for x in asks.split(',')]
    if isinstance(asks, str):
        asks = asks.split(',')
    f = u.poll()
    w = E.real('more', 0, 2)
    refused = u.refused
    before = u.counts()

    def asker(ops):
        return lambda: [u.t.is_allowed(o) for o in ops]

    def loop():
        f.set_result(Response(E.json(doc(('a', w), ('b', 1.0)))))
        u.lp.run()
    ts = E.threads([asker(ops) for ops in asks] + ([loop] if answer else []), bound)
    for t in ts:
        E.check(t.exc is None, 'raises', 'raises %s' % (type(t.exc).__name__,))
    if answer:
        E.check([x - y for x, y in zip(u.counts(), before)] == [1, 0], 'counted', 'response not counted exactly once')
        E.check(not u.lp.errors, 'raises', u.lp.errors[0] if u.lp.errors else '')
        u.grant('a', w)
        u.grant('b', 1.0)
    for ops, t in zip(asks, ts):
        for o, ok in zip(ops, t.result):
            E.reach('thread')
            if ok:
                u.spent[o] = u.spent.get(o, 0) + 1
            else:
                u.refused += 1
            if o not in u.known:
                u.known.append(o)
    E.check(u.m.get('jaeger:throttled_debug_spans') == u.refused, 'counted', 'refusals counted wrongly')
    if not answer:
        # nobody granted anything meanwhile: one thread after the other would have got the same
        n = sum(1 for ops in asks for o in ops if o == 'a')
        got = u.spent.get('a', 0)
        left = u.granted.get('a', 0)
        E.check(E.Or(got >= n, left < got + 1 + EPS), 'budget', 'refused although credit is left')
    for o in 'ab':
        left = u.granted.get(o, 0.0) - u.spent.get(o, 0)
        E.check(left >= -EPS, 'budget', 'allowed without credit')
        n = 0
        while n < 7 and u.ask(o):
            n += 1
    u.poll()


def two_answers(E, bound):
    """an answer is taken while another thread asks for an operation the agent never heard of: no operation is forgotten"""
    u = Sut(E)
    u.ask('a')
    f = u.poll()
    ts = E.threads([lambda: (u.t.is_allowed('n'), u.t.is_allowed('b')), lambda: (f.set_result(Response(E.json(doc(('a', 1.0), ('b', 1.0))))), u.lp.run()), lambda: u.t.is_allowed('m')], bound)
    for t in ts:
        E.check(t.exc is None, 'raises', 'raises %s' % (type(t.exc).__name__,))
    E.check(not u.lp.errors, 'raises', u.lp.errors[0] if u.lp.errors else '')
    E.check(u.m.get('jaeger:throttler_update', result='ok') == 1, 'counted', 'a good response is counted as failure')
    u.known = ['a', 'b', 'm', 'n']
    f = u.poll()


def polling(E, bound):
    """a poll goes out while another thread asks for a new operation"""
    u = Sut(E)
    u.ask('a')
    n = len(u.ch.credits)
    ts = E.threads([lambda: (u.t.is_allowed('n'), u.t.is_allowed('m')), lambda: [u.lp.fire() for i in range(3)]], bound)
    for t in ts:
        E.check(t.exc is None, 'raises', 'raises %s' % (type(t.exc).__name__,))
    E.check(not u.lp.errors, 'raises', u.lp.errors[0] if u.lp.errors else '')
    E.check(len(u.ch.credits) > n, 'polls', 'no credit request')
    for c in u.ch.credits:
        ops = sorted(c[2])
        E.check(ops in (['a'], ['a', 'n'], ['a', 'm', 'n']), 'request', 'request for %s' % (ops,))
    u.known = ['a', 'm', 'n']
    u.poll()


def ids(E, bound):
    """the client id is set while polling runs; the first one stays"""
    lp = Loop(E)
    E.set_random(lambda kind, *a: 0.5)
    ch = Channel(lp.io)
    t = RemoteThrottler(ch, 'svc', refresh_interval=10)
    E.threads([lambda: t.set_client_id(1), lambda: t.set_client_id(2)], bound)
    first = t.client_id
    E.check(first in (1, 2), 'request', 'no client id')
    t.set_client_id(3)
    t.is_allowed('op')
    lp.run()
    lp.fire()
    E.check(len(ch.credits) == 1 and ch.credits[0][1] == first, 'request', 'client id differs')


def scenarios(tier):
    deep = tier == 'thorough'
    b = 3 if deep else 2
    th = [('threads-%s-%s' % (asks, 'answer' if ans else 'quiet'), threads, dict(asks=asks, answer=ans, bound=b - 1 if ans and ',' in asks else b)) for asks, ans in [('a,a', 0), ('aa,a', 0), ('a,a', 1), ('a', 1), ('aa', 1), ('b,a', 1), ('k', 1), ('k,k', 1), ('k,b', 0)] + ([('aa,aa', 0), ('aa,a', 1), ('kb', 1)] if deep else [])]
    return th + [('two-answers', two_answers, dict(bound=b - 1)), ('polling', polling, dict(bound=b)), ('ids', ids, dict(bound=b))] + [('history', history, dict(steps=5 if deep else 4)), ('drain', drain, {}), ('many', many, dict(n=150)), ('hoard', hoard, {}), ('names', names, {}), ('order', order, {}), ('text', text, {}), ('odd', odd, {}), ('client-id', client_id, {})]
