"""C28 tracer metrics count spans and traces exactly."""
import jaeger_client.metrics.prometheus as prom
from jaeger_client.metrics import LegacyMetricsFactory, Metrics, MetricsFactory
from harness.common import *
from harness.vloop import Counters
from opentracing import child_of, follows_from

BOUNDS = ('histories of up to 3 (quick) or 4 (thorough) operations out of starting a span (sampling decision, parent none / local / remote with every flags and presence of a parent id / debug id / baggage only, by child_of or reference, RPC server or not, '
          'both settings of one_span_per_rpc), changing the sampling priority and finishing, also twice; start and end times in any order; metric names and up to two tags with names and values of 1..2 characters each, every pair of metrics')
ASSUMPTIONS = ['the separators . and _ do not occur in names and tags of the legacy factory', 'prometheus_client is replaced by a recorder of its documented contract (a name can only be registered once) and, in one scenario, used as is', 'span ids are not zero']
REACH = ['started', 'finished', 'traces', 'legacy', 'legacy-value', 'prometheus', 'real-prometheus', 'none']
STARTED, TRACES = 'jaeger:started_spans', 'jaeger:traces'
BUDGET = {'quick': 300, 'thorough': 800}


class Sums(object):
    """expected counts"""

    def __init__(self):
        self.n = {}

    def add(self, name, **tags):
        k = (name, tuple(sorted(tags.items())))
        self.n[k] = self.n.get(k, 0) + 1

    def get(self, name, **tags):
        return self.n.get((name, tuple(sorted(tags.items()))), 0)


ALL = [(STARTED, dict(sampled='y')), (STARTED, dict(sampled='n'))] + [(TRACES, dict(state=s, sampled=y)) for s in ('started', 'joined') for y in ('y', 'n')] + [('jaeger:finished_spans', {})]


def compare(E, m, want, step):
    for name, tags in ALL:
        label = 'finished' if 'fin' in name else 'traces' if name == TRACES else 'started'
        E.check(m.get(name, **tags) == want.get(name, **tags), label, 'counter %s%s is %s, not %s, after %s' % (name, tags, m.get(name, **tags), want.get(name, **tags), step))


def history(E, ops, via='factory'):
    m = Counters()
    if via == 'legacy':
        def count(key, v):
            name, *tags = key.split('.')
            m.create_counter(name, dict(t.split('_') for t in tags))(v)
        kw = dict(metrics=Metrics(count=count))
    elif via == 'none':
        kw = {}
    else:
        kw = dict(metrics_factory=m)
    want = Sums()
    E.set_random(lambda kind, *a: 5)
    zipkin = bool(E.choose('one_span_per_rpc', 2)) if 'S' in ops or 'R' in ops else True
    sampler = StubSampler(True)
    t = make_tracer(sampler=sampler, one_span_per_rpc=zipkin, **kw)
    spans = []
    for i, op in enumerate(ops):
        if op in 'SR':
            # start: S from nothing / local / baggage / debug, R from a remote context
            sampler.decision = E.bool('decision%d' % i)
            server = bool(E.choose('server%d' % i, 2))
            tags = {'span.kind': 'server'} if server else E.pick('tags%d' % i, [None, {'span.kind': 'client'}]) if i == 0 else None
            if op == 'R':
                par = sym_context(E, name='r%d_' % i, flags_hi=3)
                if E.choose('has_parent%d' % i, 2):
                    E.assume(par.parent_id != 0)
                else:
                    par = SpanContext(par.trace_id, par.span_id, None, par.flags)
                if E.choose('ref%d' % i, 2):
                    s = t.start_span('op', references=E.pick('r%d' % i, [child_of, follows_from])(par), tags=tags)
                else:
                    s = t.start_span('op', child_of=par, tags=tags)
                sampled = par.flags & 1 != 0
                root = zipkin and server and par.parent_id is None
            else:
                k = E.choose('parent%d' % i, 3 + bool(spans))
                if k == 3:
                    par = spans[-1][0]
                    s = t.start_span('op', child_of=par, tags=tags)
                    sampled = par.context.flags & 1 != 0
                    root = zipkin and server and spans[-1][1]
                else:
                    par = [None, SpanContext.with_debug_id('d'), SpanContext(None, None, None, 0, {'a': 'b'})][k]
                    s = t.start_span('op', child_of=par, tags=tags)
                    sampled = True if k == 1 else sampler.decision
                    root = True
            y = 'y' if sampled else 'n'
            want.add(STARTED, sampled=y)
            if root:
                want.add(TRACES, sampled=y, state='joined' if server else 'started')
            spans.append([s, root, False])
        elif op == 'P':
            for x in spans:
                x[0].set_tag('sampling.priority', E.int('priority%d' % i, -1, 2))
        elif op == 'F':
            x = spans[E.choose('which%d' % i, len(spans))]
            if x[0].context.flags & 1 != 0 and not x[2]:
                want.add('jaeger:finished_spans')
                x[2] = True
            x[0].finish()
        if via != 'none':
            compare(E, m, want, ops[:i + 1])
    E.check(len(t.reporter.spans) == want.get('jaeger:finished_spans'), 'finished', 'spans reported differ from spans counted')
    E.reach('none' if via == 'none' else 'started')


def durations(E):
    """times, names and tags do not matter to the counters"""
    m = Counters()
    clk = [E.real('t0', 0, 10)]
    E.set_clock(lambda: clk[0])
    d = E.bool('decision')
    t = make_tracer(sampler=StubSampler(d), metrics_factory=m)
    want = Sums()
    y = 'y' if d else 'n'
    tags = E.pick('tags', [None, {'a': 1}, {'span.kind': 'producer'}])
    s = t.start_span(E.str('op', (0, 1)), start_time=E.real('start', 0, 10) if E.choose('explicit', 2) else None, tags=dict(tags) if tags else tags)
    want.add(STARTED, sampled=y)
    want.add(TRACES, sampled=y, state='started')
    compare(E, m, want, 'S')
    if E.choose('log', 2):
        s.log_kv({'error': 'x'})
        s.set_operation_name('')
        s.set_tag('error', True)
    clk[0] = clk[0] + E.real('dt', -10, 10)
    s.finish(E.real('end', 0, 10) if E.choose('given', 2) else None)
    if d:
        want.add('jaeger:finished_spans')
    compare(E, m, want, 'F')


def metric(E, p, n, ntags, chars):
    """name and tags of a metric, the tags in either order"""
    name = E.str(p + 'name', n, chars=chars)
    tags = [(E.str('%sk%d' % (p, i), n, chars=chars), E.str('%sv%d' % (p, i), n, chars=chars)) for i in range(ntags)]
    if ntags == 2:
        E.assume(tags[0][0] != tags[1][0])
        if E.choose(p + 'order', 2):
            tags.reverse()
    return name, tags


def same(E, a, b):
    """the same metric: equal names and equal tags in whichever order"""
    if len(a[1]) != len(b[1]) or len(a[0]) != len(b[0]):
        return False
    eq = lambda x, y: E.And(x[0] == y[0], x[1] == y[1]) if len(x[0]) == len(y[0]) and len(x[1]) == len(y[1]) else False
    if len(a[1]) == 2:
        t = E.Or(E.And(eq(a[1][0], b[1][0]), eq(a[1][1], b[1][1])), E.And(eq(a[1][0], b[1][1]), eq(a[1][1], b[1][0])))
    else:
        t = E.And(*[eq(x, y) for x, y in zip(a[1], b[1])] + [True])
    return E.And(a[0] == b[0], t)


LEGACY = [(0x2f, 0x3a), (0x61, 0x7a)]


def legacy(E, na, ta, nb, tb):
    """equal keys exactly for equal metrics"""
    calls = []
    f = LegacyMetricsFactory(Metrics(count=lambda k, v: calls.append((k, v))))
    a, b = metric(E, 'a', na, ta, LEGACY), metric(E, 'b', nb, tb, LEGACY)
    ca, cb = f.create_counter(a[0], dict(a[1]) if a[1] or E.choose('none', 2) else None), f.create_counter(b[0], dict(b[1]))
    x, y = E.int('x', 0, 1 << 40), E.int('y', 0, 1 << 40)
    ca(x)
    cb(y)
    E.check(len(calls) == 2, 'legacy', 'an increment is lost')
    E.check(E.And(calls[0][1] == x, calls[1][1] == y), 'legacy', 'an increment differs')
    k, l = calls[0][0], calls[1][0]
    E.check(bool(k == l) == bool(same(E, a, b)), 'legacy', 'metrics share a counter, or one metric has two')


def legacy_value(E, kind, how):
    """the values handed on, with and without the callables"""
    calls = []
    fn = lambda k, v: calls.append((k, v))
    cb = {'all': dict(count=fn, gauge=fn, timing=fn), 'one': {kind: fn}, 'other': {x: fn for x in ('count', 'gauge', 'timing') if x != kind}, 'bad': {x: 'not callable' for x in ('count', 'gauge', 'timing')}, 'none': {}}[how]
    f = LegacyMetricsFactory(Metrics(**cb))
    v = E.int('v', -(1 << 40), 1 << 40) if kind != 'timing' and E.choose('int', 2) else E.real('r', -1000, 1000)
    {'count': f.create_counter, 'gauge': f.create_gauge, 'timing': f.create_timer}[kind]('n', {'k': 'v'} if E.choose('tags', 2) else None)(v)
    if how in ('all', 'one'):
        E.check(len(calls) == 1, 'legacy-value', 'a value is lost')
        got = calls[0][1]
        if kind == 'timing':
            d = got * 1000 - v
            E.check(E.And(d <= 0.001, d >= -0.001), 'legacy-value', 'a value differs')
        else:
            E.check(got == v, 'legacy-value', 'a value differs')
    else:
        E.check(not calls, 'legacy-value', 'a value goes to another callable')


class Registry(object):
    """what prometheus_client promises: a name registers once, a metric has fixed label names and one child for each combination of label values"""

    def __init__(self, E, kind):
        self.E, self.kind, self.metrics = E, kind, []

    def __call__(self, name, documentation, labelnames=(), namespace=''):
        for m in REG:
            if self.E.And(m.name == name, m.namespace == namespace):
                raise ValueError('Duplicated timeseries')
        m = Metric(self.E, self.kind, name, list(labelnames), namespace)
        REG.append(m)
        return m


class Metric(object):
    def __init__(self, E, kind, name, labelnames, namespace):
        self.E, self.kind, self.name, self.labelnames, self.namespace = E, kind, name, labelnames, namespace
        self.children = []

    def labels(self, **kw):
        E = self.E
        if len(kw) != len(self.labelnames):
            raise ValueError('Incorrect label names')
        values = []
        for n in self.labelnames:
            if n not in kw:
                raise ValueError('Incorrect label names')
            values.append(str(kw[n]))
        return self.child(values)

    def child(self, values):
        for c in self.children:
            if self.E.And(*[a == b for a, b in zip(c.values, values)] + [True]):
                return c
        c = Child(values)
        self.children.append(c)
        return c

    def plain(self):
        if self.labelnames:
            raise ValueError('metric is missing label values')
        return self.child([])

    def inc(self, v=1):
        self.plain().inc(v)

    def set(self, v):
        self.plain().set(v)


class Child(object):
    def __init__(self, values):
        self.values, self.value, self.calls = values, 0, 0

    def inc(self, v=1):
        self.value += v
        self.calls += 1

    def set(self, v):
        self.value = v
        self.calls += 1


REG = []


def prometheus(E, ta, tb, kinds, service):
    """equal time series exactly for equal metrics"""
    del REG[:]
    old = prom.Counter, prom.Gauge
    prom.Counter, prom.Gauge = Registry(E, 'c'), Registry(E, 'g')
    try:
        f = prom.PrometheusMetricsFactory(namespace='ns', service_name_label='svc' if service else None)
        names = ['k', 'l', 'm']
        a = (E.str('aname', 1, chars=LOWER), [(names[i], E.str('av%d' % i, 1)) for i in range(ta)])
        b = (E.str('bname', 1, chars=LOWER), [(names[(i + E.choose('shift', 2)) % 3] if i == 0 else 'z', E.str('bv%d' % i, 1)) for i in range(tb)])
        mk = [f.create_counter, f.create_gauge]
        x, y = E.int('x', 0, 1 << 40), E.int('y', 0, 1 << 40)
        mk[kinds[0]](a[0], dict(a[1]) if a[1] else E.pick('empty', [None, {}]))(x)
        cb, e = E.outcome(lambda: mk[kinds[1]](b[0], dict(reversed(b[1]))))
        labels_differ = {k for k, v in a[1]} != {k for k, v in b[1]}
        if a[0] == b[0] and (labels_differ or kinds[0] != kinds[1]):
            E.check(e is not None, 'prometheus', 'two metrics of one name')
            E.check(sum(c.calls for m in REG for c in m.children) == 1, 'prometheus', 'another counter is changed')
        else:
            E.check(e is None, 'prometheus', 'metric refused: %s' % (type(e).__name__,))
            cb(y)
            eq = kinds[0] == kinds[1] and bool(same(E, a, b))
            cs = [c for m in REG for c in m.children if c.calls]
            E.check(len(cs) == (1 if eq else 2), 'prometheus', 'metrics share a counter, or one metric has two')
            if eq:
                E.check(cs[0].value == (x + y if kinds[0] == 0 else y), 'prometheus', 'value differs')
            else:
                E.check(E.And(cs[0].value == x, cs[1].value == y), 'prometheus', 'value differs')
            if service:
                E.check(all('service' in m.labelnames and c.values[m.labelnames.index('service')] == 'svc' for m in REG for c in m.children), 'prometheus', 'service label differs')
    finally:
        prom.Counter, prom.Gauge = old


def two_factories(E):
    """two factories given the same tags: each keeps its own label, and the tags stay as they were"""
    del REG[:]
    old = prom.Counter, prom.Gauge
    prom.Counter, prom.Gauge = Registry(E, 'c'), Registry(E, 'g')
    try:
        own = E.choose('own', 2)
        tags = {'k': E.str('v', 1)}
        if own:
            tags['service'] = 'mine'
        seen = dict(tags)
        labels = [E.pick('label%d' % i, [None, 'one', 'two']) for i in range(2)]
        kind = E.pick('kind', ['create_counter', 'create_gauge'])
        for i in range(2):
            f = prom.PrometheusMetricsFactory(namespace='ns%d' % i, service_name_label=labels[i])
            x = E.int('x%d' % i, 1, 100)
            getattr(f, kind)('name', tags)(x)
            ms = [m for m in REG if m.namespace == 'ns%d' % i]
            E.check(len(ms) == 1 and len(ms[0].children) == 1, 'prometheus', 'not one counter')
            m, c = ms[0], ms[0].children[0]
            got = dict(zip(m.labelnames, c.values))
            want = dict(seen)
            if labels[i] is not None:
                want['service'] = labels[i]
            E.check(sorted(got) == sorted(want), 'prometheus', 'labels differ')
            E.check(E.And(*[got[k] == want[k] for k in want]), 'prometheus', 'label values differ')
            E.check(c.value == x, 'prometheus', 'value differs')
            E.check(sorted(tags) == sorted(seen), 'prometheus', 'the tags given are changed')
    finally:
        prom.Counter, prom.Gauge = old


def real_prometheus(E):
    """the tracer on prometheus_client itself"""
    import prometheus_client
    for c in list(prometheus_client.REGISTRY._collector_to_names):
        prometheus_client.REGISTRY.unregister(c)
    label = E.pick('label', [None, 'me'])
    f = prom.PrometheusMetricsFactory(namespace=E.pick('ns', ['', 'x']), service_name_label=label)
    sampler = StubSampler(bool(E.choose('decision', 2)))
    t = make_tracer(sampler=sampler, metrics_factory=f)
    server = bool(E.choose('server', 2))
    s = t.start_span('op', tags={'span.kind': 'server'} if server else None)
    s.finish()
    got = {}
    for m in prometheus_client.REGISTRY.collect():
        for x in m.samples:
            if x.value and x.name.endswith('_total'):
                got[(x.name.split('jaeger:')[1], tuple(sorted(x.labels.items())))] = x.value
    y = 'y' if sampler.decision else 'n'
    svc = (('service', 'me'),) if label else ()
    want = {('started_spans_total', (('sampled', y),) + svc): 1.0, ('traces_total', (('sampled', y),) + svc + (('state', 'joined' if server else 'started'),)): 1.0}
    want = {(k, tuple(sorted(t))): v for (k, t), v in want.items()}
    if sampler.decision:
        want[('finished_spans_total', svc)] = 1.0
    E.check(got == want, 'real-prometheus', 'counters are %s' % sorted(got))


def scenarios(tier):
    out = []
    hist = ['S', 'R', 'SS', 'SF', 'RF', 'SPF', 'RPF', 'SFF', 'SFPF', 'SSF', 'RS']
    if tier == 'thorough':
        hist += ['RSF', 'SSFF', 'SSPF', 'RPSF', 'SFPFF']
    for h in hist:
        out.append(('history-' + h, history, dict(ops=h)))
    out.append(('history-legacy', history, dict(ops='SF', via='legacy')))
    out.append(('durations', durations, {}))
    out.append(('history-none', history, dict(ops='SF', via='none')))
    hi = 4 if tier == 'thorough' else 3
    for na in range(1, hi):
        for ta in range(3):
            for nb in range(1, hi):
                for tb in range(ta + 1):
                    out.append(('legacy%d%d%d%d' % (na, ta, nb, tb), legacy, dict(na=na, ta=ta, nb=nb, tb=tb)))
    for k in ('count', 'gauge', 'timing'):
        for h in ('all', 'one', 'other', 'bad', 'none'):
            out.append(('value-%s-%s' % (k, h), legacy_value, dict(kind=k, how=h)))
    for ta in range(3):
        for tb in range(3):
            for kinds in ((0, 0), (1, 1), (0, 1)):
                out.append(('prometheus%d%d%d%d' % ((ta, tb) + kinds), prometheus, dict(ta=ta, tb=tb, kinds=kinds, service=ta != tb)))
    out.append(('real-prometheus', real_prometheus, {}))
    out.append(('two-factories', two_factories, {}))
    return out
