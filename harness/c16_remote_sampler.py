"""C16 the remote sampler survives any agent response."""
from jaeger_client.sampler import RemoteControlledSampler, ProbabilisticSampler, RateLimitingSampler, ConstSampler
from harness.common import *
from harness.vloop import Loop, Channel, Counters, Response

BOUNDS = ('two consecutive responses, the first absent, probabilistic, rate limiting or per-operation; the second one of 11 failures, one of 14 bodies that are no JSON or no object, a strategy document of each kind with symbolic '
          'numbers (rates: every binary64; bounds and limits: every real in [-10, 1000] and NaN, infinities, huge integers), or such a document with one position (11 of them) removed or replaced by one of 16 odd values, or with fields of the other kinds given besides or as null; all sequences of three of six fixed answers; six pairs of consecutive rates that differ by little; '
          'then queries with symbolic ids for a listed and two unlisted operations, before and after a long wait')
ASSUMPTIONS = ['the agent channel is a stub that hands out futures', 'random draws are 0.5', 'JSON text is represented by its parsed value; non-JSON bodies are listed',
               'a missing rate, a boolean as number and an infinite lower bound are left open (only "keeps answering" and counting)']
REACH = ['failure', 'text', 'prob', 'rate', 'adaptive', 'rejected', 'odd', 'unchanged', 'accepted', 'lower']
HI = U64


class Agent(object):
    def __init__(self, E, n, init=None):
        self.E = E
        self.lp = Loop(E)
        E.set_random(lambda kind, *a: 0.5)
        self.s, self.ch, self.m = [], [], []
        for i in range(n):
            ch, m = Channel(self.lp.io), Counters()
            self.ch.append(ch)
            self.m.append(m)
            self.s.append(RemoteControlledSampler(ch, 'svc', init_sampler=init() if init else None, metrics_factory=m, sampling_refresh_interval=10, max_operations=3))
        self.lp.run()

    def answer(self, who, response=None, error=None):
        """the next request of sampler `who` is answered"""
        n = 0
        while not self.ch[who].sampling and n < 50:
            self.lp.fire()
            n += 1
        self.E.check(len(self.ch[who].sampling) > 0, 'polls', 'sampler does not poll')
        f = self.ch[who].sampling.pop(0)[1]
        if error is not None:
            f.set_exception(error)
        else:
            f.set_result(response)
        self.lp.run()
        self.E.check(not self.lp.errors, 'raises', self.lp.errors[0] if self.lp.errors else '')

    def counts(self, who=0):
        m = self.m[who]
        return [m.get('jaeger:sampler_queries', result='ok'), m.get('jaeger:sampler_queries', result='err'),
                m.get('jaeger:sampler_updates', result='ok'), m.get('jaeger:sampler_updates', result='err')]


def per_op(lb, drate, ops):
    return {'operationSampling': {'defaultSamplingProbability': drate, 'defaultLowerBoundTracesPerSecond': lb,
                                  'perOperationStrategies': [{'operation': o, 'probabilisticSampling': {'samplingRate': r}} for o, r in ops]}}


def prob(rate):
    return {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': rate}}


def limit(mtps):
    return {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': mtps}}


FIRST = {'none': None, 'prob': prob(0.25), 'rate': limit(2.0), 'adaptive': per_op(0.5, 0.125, [('a', 0.25), ('b', 0.0)]), 'adaptive0': per_op(0.5, 0.125, [])}


def start(E, first, n):
    a = Agent(E, n)
    doc = FIRST[first]
    if doc is not None:
        for i in range(n):
            a.answer(i, Response(E.json(doc)))
        c = a.counts()
        E.check(c == [1, 0, 1, 0], 'counted', 'first response counted wrongly')
    return a


def query(E, a, who, ids):
    """decisions for a listed operation and two others, now and after a long wait"""
    out = []
    for op in ('a', 'other', ''):
        out.append(a.s[who].is_sampled(ids, op))
    return out


def same(E, x, y):
    for (d1, t1), (d2, t2) in zip(x, y):
        E.check(bool(d1) == bool(d2), 'unchanged', 'a rejected response changes a decision')
        E.check(t1['sampler.type'] == t2['sampler.type'] and t1['sampler.param'] == t2['sampler.param'], 'unchanged', 'a rejected response changes the tags')


def rejected(E, a, before, kind):
    """sampler 0 got a bad response, sampler 1 did not: both decide alike"""
    now = a.counts()
    d = [x - y for x, y in zip(now, before)]
    if kind == 'query':
        E.check(d == [0, 1, 0, 0], 'counted', 'failed query not counted once: %s' % d)
    else:
        E.check(d == [1, 0, 0, 1], 'counted', 'failed update not counted once: %s' % d)
    tid = E.int('id', 0, HI)
    same(E, query(E, a, 0, tid), query(E, a, 1, tid))
    a.lp.v.now = a.lp.v.now + 5.0
    tid2 = HI
    same(E, query(E, a, 0, tid2), query(E, a, 1, tid2))
    E.reach('rejected')


BODIES = [b'', b'\xff\xfe', b'{', b'nope', b'null', b'[]', b'[1, 2]', b'1', b'"x"', u'{"a"', None, b'\xef\xbb\xbf{}', b'[' * 100000, 5, b'true', u'{}', b'\x80abc']


def text(E, first):
    a = start(E, first, 2)
    before = a.counts()
    k = E.choose('body', len(BODIES) + 1)
    if k == len(BODIES):
        a.answer(0, error=E.pick('error', [ValueError('boom'), OSError(111, 'refused'), RuntimeError(u'\u00e9'), KeyError(), http_error(304), http_error(404), http_error(500), http_error(599), coded(200), coded(304), TimeoutError()]))
        E.reach('failure')
        rejected(E, a, before, 'query')
        return
    b = BODIES[k]
    a.answer(0, Response(b))
    import json
    try:
        t = b.decode('utf-8') if isinstance(b, bytes) else b
        json.loads(t)
        ok = True
    except Exception:
        ok = False
    E.reach('text')
    rejected(E, a, before, 'update' if ok else 'query')


def number(E, kind):
    """a numeric leaf: (value, valid for a rate, valid as lower bound, valid limit)"""
    odd = [float('nan'), float('inf'), float('-inf'), 10 ** 400, -1, 0, 1]
    if kind == 'rate':
        k = E.choose('odd', 4)
        v = E.float('rate', nan=True, inf=True) if k == 0 else odd[[3, 4, 6][k - 1]]
        return v, E.And(v >= 0, v <= 1)
    k = E.choose('odd', len(odd) + 1)
    v = E.real('num', -10, 1000) if k == 0 else odd[k - 1]
    if kind == 'limit':
        return v, E.And(v >= 0, v < 500)
    if k == 2:
        return v, None
    if k == 4:
        return v, False          # does not fit a float
    return v, E.And(v >= 0, E.Not(E.isnan(v)))


def numbers(E, first, which):
    a = start(E, first, 2)
    before = a.counts()
    v, valid = number(E, {'prob': 'rate', 'rate': 'limit', 'op': 'rate', 'default': 'rate', 'lower': 'lower', 'lower0': 'lower', 'second': 'rate'}[which])
    if which == 'prob':
        doc = prob(v)
    elif which == 'rate':
        doc = limit(v)
    elif which == 'op':
        doc = per_op(0.5, 0.0, [('a', v)])
    elif which == 'second':
        doc = per_op(0.75, 0.0, [('a', 1.0), ('b', v)])
    elif which == 'default':
        doc = per_op(0.5, v, [('a', 0.0)])
    elif which == 'lower':
        doc = per_op(v, 0.0, [('a', 0.0)])
    else:
        doc = per_op(v, 0.0, [])
    a.answer(0, Response(E.json(doc)))
    tid = E.int('tid', 0, HI)
    s = a.s[0]
    if valid is None:
        query(E, a, 0, tid)
        return
    if not valid:
        rejected(E, a, before, 'update')
        return
    d = [x - y for x, y in zip(a.counts(), before)]
    if which in ('prob', 'rate'):
        old = {('prob', 'prob'): 0.25, ('rate', 'rate'): 2.0, ('none', 'prob'): 0.001}.get((first, which))
        effective = True if old is None else v != old
        E.check(d == [1, 0, 1 if effective else 0, 0], 'counted', 'valid update counted as %s' % d)
    else:
        E.check(d == [1, 0, 1, 0], 'counted', 'valid update counted as %s' % d)
    E.reach('accepted')
    if which == 'prob':
        got, tags = s.is_sampled(tid, 'x')
        E.check(bool(got) == bool(ProbabilisticSampler(v).is_sampled(tid)[0]), 'prob', 'decision differs')
        E.check(tags['sampler.type'] == 'probabilistic' and tags['sampler.param'] == v, 'prob', 'tags differ')
    elif which == 'rate':
        got, tags = s.is_sampled(tid, 'x')
        E.check(tags['sampler.type'] == 'ratelimiting' and tags['sampler.param'] == v, 'rate', 'tags differ')
        n = 0
        while got and n < 3:
            got = s.is_sampled(tid, 'x')[0]
            n += 1
        E.check(n <= E.ite(v > 1, v, 1.0), 'rate', 'burst above the limit')
        if n < 3 and v >= 0.1 and not got:
            a.lp.v.now = a.lp.v.now + 10.5
            E.check(s.is_sampled(tid, 'x')[0], 'rate', 'limit does not accrue')
    else:
        rate = {'op': v, 'second': 1.0}.get(which, 0.0)
        listed = which != 'lower0'
        op = 'a'
        if which == 'second':
            op, rate = 'b', v
        if which in ('default', 'lower0'):
            op, rate = 'other', v if which == 'default' else 0.0
            if first == 'adaptive' and which == 'default':
                op = 'fresh'
        lb = v if which in ('lower', 'lower0') else (0.75 if which == 'second' else 0.5)
        got, tags = s.is_sampled(tid, op)
        p = ProbabilisticSampler(rate).is_sampled(tid)[0]
        if p:
            E.check(got, 'adaptive', 'decision differs')
            E.check(tags['sampler.type'] == 'probabilistic', 'adaptive', 'type differs')
        else:
            E.check(tags['sampler.type'] == 'lowerbound', 'adaptive', 'type differs')
        E.check(tags['sampler.param'] == rate, 'adaptive', 'rate differs')
        n = 0
        while n < 3 and s.is_sampled(HI, op)[0]:
            n += 1
        if n < 3 and rate != 1 and rate < 0.9:
            E.check(n <= E.ite(lb > 1, lb, 1.0), 'lower', 'burst above the lower bound')
            if lb >= 0.1:
                a.lp.v.now = a.lp.v.now + 10.5
                E.check(s.is_sampled(HI, op)[0], 'lower', 'lower bound does not accrue')


JUNK = [None, True, 'x', '', [], [1], {}, {'a': 1}, -1, 1.5, float('inf'), float('nan'), 10 ** 400, 0, 0.5, [{}]]
POS = ['doc', 'operationSampling', 'defaultSamplingProbability', 'defaultLowerBoundTracesPerSecond', 'perOperationStrategies', 'strategy', 'operation', 'probabilisticSampling', 'samplingRate']
POS2 = ['strategyType', 'probabilisticSampling', 'samplingRate', 'rateLimitingSampling', 'maxTracesPerSecond']


def put(d, key, v, gone):
    if gone:
        del d[key]
    else:
        d[key] = v


def odd(E, first, base):
    """one position of a valid document removed or replaced"""
    a = start(E, first, 2)
    before = a.counts()
    k = E.choose('junk', len(JUNK) + 1)
    gone = k == len(JUNK)
    v = None if gone else JUNK[k]
    if base == 'adaptive':
        doc = per_op(0.75, 0.5, [('a', 1.0), ('c', 0.5)])
        pos = E.pick('pos', POS)
        o = doc['operationSampling']
        st = o['perOperationStrategies']
        if pos == 'doc':
            doc = v if not gone else {}
        elif pos == 'operationSampling':
            put(doc, pos, v, gone)
        elif pos in ('defaultSamplingProbability', 'defaultLowerBoundTracesPerSecond', 'perOperationStrategies'):
            put(o, pos, v, gone)
        elif pos == 'strategy':
            put(st, 1, v, gone)
        elif pos in ('operation', 'probabilisticSampling'):
            put(st[1], pos, v, gone)
        else:
            put(st[1]['probabilisticSampling'], pos, v, gone)
    else:
        doc = prob(0.5) if base == 'prob' else limit(3.0)
        pos = E.pick('pos', POS2)
        if pos in doc:
            put(doc, pos, v, gone)
        elif pos == 'samplingRate' and base == 'prob':
            put(doc['probabilisticSampling'], pos, v, gone)
        elif pos == 'maxTracesPerSecond' and base == 'rate':
            put(doc['rateLimitingSampling'], pos, v, gone)
        else:
            return
    a.answer(0, Response(E.json(doc)))
    d = [x - y for x, y in zip(a.counts(), before)]
    E.check(d[0] == 1 and d[1] == 0, 'odd', 'response not counted as retrieved once: %s' % d)
    E.check(d[2] + d[3] <= 1, 'odd', 'update counted twice: %s' % d)
    if d[3]:
        rejected(E, a, before, 'update')
    else:
        tid = E.int('id', 0, HI)
        query(E, a, 0, tid)
        for op in ('n1', 'n2', 'n3', 'c'):
            a.s[0].is_sampled(tid, op)
    # a good response afterwards is taken
    a.answer(0, Response(E.json(prob(1.0))))
    got, tags = a.s[0].is_sampled(HI, 'zz')
    E.check(got and tags['sampler.param'] == 1.0, 'accepted', 'a good response after an odd one is not taken')


def mixed(E, first):
    """what an agent really sends: a field of the other kinds given as null or besides; the per-operation strategy wins"""
    a = start(E, first, 1)
    k = E.choose('kind', 5)
    doc = [prob(0.5), limit(3.0), per_op(0.75, 0.5, [('a', 1.0)]), prob(0.5), limit(3.0)][k]
    if k == 2:
        doc.update(prob(0.125) if E.choose('also', 2) else limit(7.0))
    elif k < 2:
        doc['operationSampling'] = None
        doc['rateLimitingSampling' if k == 0 else 'probabilisticSampling'] = None
    else:
        doc.update({'probabilisticSampling': {'samplingRate': 0.5}, 'rateLimitingSampling': {'maxTracesPerSecond': 3.0}, 'unknown': [1]})
    a.answer(0, Response(E.json(doc)))
    got, tags = a.s[0].is_sampled(HI, 'a')
    E.check((tags['sampler.type'], tags['sampler.param']) == [('probabilistic', 0.5), ('ratelimiting', 3.0), ('lowerbound', 1.0), ('probabilistic', 0.5), ('ratelimiting', 3.0)][k]
            or (k == 2 and tags['sampler.type'] == 'probabilistic' and tags['sampler.param'] == 1.0), 'adaptive', 'strategy not taken')
    got, tags = a.s[0].is_sampled(HI, 'zz')
    if k == 2:
        E.check(tags['sampler.type'] == 'lowerbound' and tags['sampler.param'] == (0.5 if first not in ('adaptive',) else 0.5), 'adaptive', 'default not taken')


NEAR = [(0.25, 0.25000000000000006), (0.123456789012, 0.123456789013), (1e-300, 2e-300), (0.0, 5e-324), (0.999999999999, 1.0), (0.001, 0.0010000000000000002)]


def near(E):
    """a change of the rate takes effect however small it is"""
    a = Agent(E, 1)
    x, y = E.pick('pair', NEAR)
    if E.choose('swap', 2):
        x, y = y, x
    kind = E.pick('kind', ['prob', 'rate', 'op', 'default'])
    f = {'prob': prob, 'rate': limit, 'op': lambda r: per_op(0.5, 0.0, [('a', r)]), 'default': lambda r: per_op(0.5, r, [])}[kind]
    for v in (x, y):
        a.answer(0, Response(E.json(f(v))))
    op = 'fresh' if kind == 'default' else 'a'
    tags = a.s[0].is_sampled(HI, op)[1]
    E.check(tags['sampler.param'] == y, 'prob', 'a small change is ignored')


def repeated(E):
    """every sequence of three of six answers, the same one again included: each is judged and counted on its own"""
    import json
    docs = [('rate', 3.0, limit(3.0)), ('rate', 0.0, limit(0.0)), ('prob', 0.5, prob(0.5)), ('op', 0.25, per_op(0.75, 0.25, [('a', 0.25)])), ('bad', None, limit(1000.0)), ('text', None, None)]
    a = Agent(E, 1)
    tid = E.int('id', 0, HI)
    last = a.s[0].is_sampled(HI, 'zz')[1]
    for i in range(3):
        kind, v, doc = docs[E.choose('doc%d' % i, len(docs))]
        before = a.counts()
        a.answer(0, Response(b'{' if doc is None else json.dumps(doc).encode('utf-8')))
        d = [x - y for x, y in zip(a.counts(), before)]
        tags = a.s[0].is_sampled(HI, 'zz')[1]
        a.s[0].is_sampled(tid, 'a')
        if kind == 'bad' or kind == 'text':
            E.check(d == ([0, 1, 0, 0] if kind == 'text' else [1, 0, 0, 1]), 'counted', 'failure not counted once: %s' % d)
            E.check(tags == last, 'unchanged', 'a rejected response changes the tags')
            continue
        changed = tags != last
        last = tags
        want = {'rate': 'ratelimiting', 'prob': 'probabilistic', 'op': 'lowerbound'}[kind]
        E.check(tags['sampler.type'] == want and tags['sampler.param'] == v, 'accepted', 'strategy not taken')
        E.check(d[0] == 1 and d[1] == 0 and d[3] == 0 and (d[2] == 1 if changed else d[2] in (0, 1)), 'counted', 'response counted wrongly: %s' % d)


def start_value(E):
    """before any response the given sampler (or probability 0.001) decides"""
    k = E.choose('init', 3)
    init = [None, lambda: ConstSampler(True), lambda: RateLimitingSampler(2.0)][k]
    a = Agent(E, 1, init)
    tid = E.int('id', 0, HI)
    got, tags = a.s[0].is_sampled(tid, 'op')
    ref = [ProbabilisticSampler(0.001), ConstSampler(True), RateLimitingSampler(2.0)][k]
    E.check(tags['sampler.type'] == ref._tags['sampler.type'] and tags['sampler.param'] == ref._tags['sampler.param'], 'prob', 'initial sampler not used')
    if k == 0:
        E.check(bool(got) == bool(ref.is_sampled(tid)[0]), 'prob', 'initial decision differs')


def scenarios(tier):
    out = [('initial', start_value, {}), ('near', near, {}), ('repeated', repeated, {})]
    firsts = ['none', 'prob', 'rate', 'adaptive', 'adaptive0']
    for f in firsts:
        out.append(('mixed-' + f, mixed, dict(first=f)))
        out.append(('text-' + f, text, dict(first=f)))
        for w in ('prob', 'rate', 'op', 'second', 'default', 'lower', 'lower0'):
            out.append(('numbers-%s-%s' % (f, w), numbers, dict(first=f, which=w)))
        for b in ('adaptive', 'prob', 'rate'):
            out.append(('odd-%s-%s' % (f, b), odd, dict(first=f, base=b)))
    return out
