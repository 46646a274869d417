"""C21 tag values keep type and value; other values are recorded as text, cut to the configured length."""
from jaeger_client.thrift_gen.jaeger.ttypes import TagType
from harness.common import *
from harness.vloop import Loop, Channel, Future

BOUNDS = ('value: booleans, all integers in [-2^70, 2^70], all binary64 floats, all texts of 0..4 (thorough 6) Unicode characters, objects with such a text form, containers, bytes, '
          'exceptions, objects whose text conversion fails; maximum length 0..5 (7); as span tag, tag given at start, log field and process tag; two tags in a row')
ASSUMPTIONS = ['the text form of a value is str(value)']
REACH = ['bool', 'long', 'double', 'text', 'cut', 'order', 'big']


class Obj(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class Bad(object):
    def __str__(self):
        raise ValueError('no text')


def record(E, how, key, value, maxlen):
    """the thrift tag recorded for (key, value)"""
    E.set_clock(lambda: 1000.0)
    if how == 'process':
        from jaeger_client.reporter import Reporter
        lp = Loop(E)
        r = Reporter(channel=Channel(lp.io), io_loop=lp.io, batch_size=1)
        r.set_process('svc', {key: value}, max_length=maxlen)
        got = []

        def send(batch):
            got.append(batch)
            f = Future()
            f.set_result(None)
            return f
        r._send = send
        lp.run()
        r.report_span(done_span())
        lp.run()
        E.check(len(got) == 1, 'recorded', 'no batch')
        E.check(got[0].process.serviceName == 'svc', 'recorded', 'service name differs')
        tags = list(got[0].process.tags)
    else:
        t = make_tracer(max_tag_value_length=maxlen)
        if how == 'start':
            sp = t.start_span('op', tags={key: value})
            tags = [x for x in sp.tags if not x.key.startswith('sampler.')]
        elif how == 'log':
            sp = t.start_span('op')
            sp.log_kv({key: value})
            E.check(len(sp.logs) == 1, 'recorded', 'log lost')
            tags = sp.logs[0].fields
        else:
            sp = t.start_span('op')
            n = len(sp.tags)
            sp.set_tag(key, value)
            tags = sp.tags[n:]
    E.check(len(tags) == 1, 'recorded', 'not recorded exactly once')
    return tags[0]


def done_span():
    sp = make_tracer().start_span('op', child_of=SpanContext(1, 2, 3, 1))
    sp.finish()
    return sp


def only(E, tag, vtype, field):
    E.check(tag.vType == vtype, field, 'recorded with another type')
    for f in ('vStr', 'vBool', 'vLong', 'vDouble', 'vBinary'):
        if f != field:
            E.check(getattr(tag, f) is None, field, 'a second value is set')


def value(E, how, kind, n=0):
    key = 'k'
    maxlen = E.int('maxlen', 0, 5)
    if kind == 'bool':
        v = E.bool('v')
        tag = record(E, how, key, v, maxlen)
        only(E, tag, TagType.BOOL, 'vBool')
        E.check(tag.vBool == v, 'bool', 'value differs')
    elif kind == 'int':
        v = E.int('v', -(1 << 70), 1 << 70)
        tag = record(E, how, key, v, 30)
        if E.And(v >= -(1 << 63), v < (1 << 63)):
            only(E, tag, TagType.LONG, 'vLong')
            E.check(tag.vLong == v, 'long', 'value differs')
        else:
            E.reach('big')
            only(E, tag, TagType.STRING, 'vStr')
            E.check(tag.vStr == str(v), 'text', 'text differs')
    elif kind == 'float':
        v = E.float('v', nan=True, inf=True)
        tag = record(E, how, key, v, maxlen)
        only(E, tag, TagType.DOUBLE, 'vDouble')
        E.check(E.Or(tag.vDouble == v, E.And(E.isnan(v), E.isnan(tag.vDouble))), 'double', 'value differs')
    else:
        s = E.str('v', n)
        v = s if kind == 'text' else Obj(s)
        tag = record(E, how, key, v, maxlen)
        only(E, tag, TagType.STRING, 'vStr')
        cut = s
        if len(s) > maxlen:
            E.reach('cut')
            k = 0
            while k < maxlen:
                k += 1
            cut = s[:k]
        E.check(tag.vStr == cut, 'text', 'text differs')
    E.check(tag.key == key, 'key', 'key differs')


def other(E, how):
    v = E.pick('v', [None, [1, 'a'], {'a': 1}, (), b'abc', 1j, ValueError('boom'), object, Bad(), Obj('x' * 50), u'\u00e9' * 40, len])
    maxlen = E.pick('maxlen', [0, 1, 3, 1024])
    tag = record(E, how, 'k', v, maxlen)
    only(E, tag, TagType.STRING, 'vStr')
    if not isinstance(v, Bad):
        E.check(tag.vStr == str(v)[:maxlen], 'text', 'text differs')
    else:
        E.check(len(tag.vStr) <= maxlen, 'text', 'text too long')


def odd_key(E, how):
    k = E.pick('key', [5, None, (1, 2), True, b'k', Obj('kk'), ''])
    tag = record(E, how, k, 'v', 10)
    E.check(tag.key == str(k), 'key', 'key differs')


def trace_back(E, how):
    import sys
    try:
        raise ValueError('boom')
    except ValueError:
        tb = sys.exc_info()[2]
    tag = record(E, how, 'tb', tb, 10)
    only(E, tag, TagType.STRING, 'vStr')
    E.check('Traceback' in tag.vStr or 'File' in tag.vStr, 'text', 'no traceback text')


def order(E):
    """several tags keep their order, repeated keys included; keys and values arbitrary"""
    t = make_tracer()
    E.set_clock(lambda: 1000.0)
    sp = t.start_span('op', tags={'first': 1})
    n = len(sp.tags)
    want = []
    for i in range(3):
        k = E.str('k%d' % i, 1, chars=[(0x61, 0x62)])
        v = E.int('v%d' % i, -5, 5) if i % 2 else E.str('s%d' % i, 1)
        sp.set_tag(k, v)
        want.append((k, v))
    E.check(len(sp.tags) == n + 3, 'order', 'tags lost or merged')
    for (k, v), tag in zip(want, sp.tags[n:]):
        E.check(tag.key == k, 'order', 'order differs')
        E.check((tag.vStr if tag.vStr is not None else tag.vLong) == v, 'order', 'value differs')
    sp.log_kv({'a': 1, 'b': 2, 'c': 3})
    E.check([f.key for f in sp.logs[-1].fields] == ['a', 'b', 'c'], 'order', 'order of log fields differs')
    sp.log_kv({'z': 1}, timestamp=2.5)
    E.check(sp.logs[-1].timestamp == 2500000, 'order', 'explicit log time differs')


def scenarios(tier):
    deep = tier == 'thorough'
    out = [('order', order, {})]
    for how in ('tag', 'start', 'log', 'process'):
        for kind in ('bool', 'int', 'float'):
            out.append(('%s-%s' % (how, kind), value, dict(how=how, kind=kind)))
        for n in range(7 if deep else 5):
            out.append(('%s-text%d' % (how, n), value, dict(how=how, kind='text', n=n)))
            out.append(('%s-obj%d' % (how, n), value, dict(how=how, kind='obj', n=n)))
        out.append(('%s-other' % how, other, dict(how=how)))
        out.append(('%s-key' % how, odd_key, dict(how=how)))
        out.append(('%s-tb' % how, trace_back, dict(how=how)))
    return out
