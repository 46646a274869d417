"""C35 errors leaving a span are recorded and go on; log calls record one log each."""
import sys
import traceback
from jaeger_client.thrift_gen.jaeger.ttypes import TagType
from harness.common import *

BOUNDS = ('blocks entered through the span, a scope that finishes it and one that does not, nested in another or not; flags 0..255; ten kinds of errors with messages of 0..3 (thorough 5) Unicode characters, '
          'maximum tag length 0..40, maximum traceback length 0, 5 and 4096; clock and given times: every real in (0, 2^32]; messages and payloads of up to 2 characters, absent and other payloads; 0..2 logs and tags recorded before; up to 40 logs of 40 fields')
ASSUMPTIONS = ['times are exact reals', 'the text form of a value is str(value)']
REACH = ['raised', 'unsampled', 'quiet', 'active', 'logged', 'payload', 'timed', 'chain']


class Odd(Exception):
    pass


class Base(BaseException):
    pass


def text(s, n):
    """the first n characters of s"""
    if len(s) > n:
        k = 0
        while k < n:
            k += 1
        return s[:k]
    return s


def fields(E, log):
    out = {}
    for f in log.fields:
        E.check(f.vType == TagType.STRING, 'fields', 'recorded with another type')
        E.check(f.key not in out, 'fields', 'recorded twice')
        out[f.key] = f.vStr
    return out


def exact(E, log, want):
    got = fields(E, log)
    E.check(sorted(got) == sorted(want), 'fields', 'fields %s' % sorted(got))
    for k in want:
        if k in got:
            E.check(got[k] == want[k], 'fields', 'field %s differs' % k)


def earlier(E, sp, on=True):
    """what may have been recorded before; gives the number of tags and logs"""
    k = E.choose('earlier', 3) if on else 0
    if k:
        sp.set_tag('error', False)
        sp.log_kv({'event': 'error'}, timestamp=3.0)
    if k == 2:
        sp.error('earlier', 'payload')
    return len(sp.tags), len(sp.logs)


def deep(n, exc):
    if n:
        deep(n - 1, exc)
    raise exc


def block(E, how, n):
    rep = RecordingReporter()
    now = E.real('now', 0, 1 << 32, lo_open=True)
    E.set_clock(lambda: now)
    maxtb = E.pick('maxtb', [0, 5, 4096]) if n == 0 else 4096
    maxlen = E.int('maxlen', 0, 6) if n else 40
    t = make_tracer(reporter=rep, max_tag_value_length=maxlen, max_traceback_length=maxtb)
    fl = E.int('flags', 0, 255)
    msg = E.str('msg', n)
    kind = E.pick('kind', ['none', 'value', 'odd', 'base', 'exit', 'two', 'empty', 'key', 'os', 'stop']) if n == 0 else 'odd'
    exc = {'none': None, 'value': ValueError(msg), 'odd': Odd(msg), 'base': Base(msg), 'exit': SystemExit(3), 'two': RuntimeError(1, 'a'), 'empty': Odd(), 'key': KeyError('k'), 'os': OSError(2, 'no'), 'stop': StopIteration()}[kind]
    outer = None
    if how != 'span' and E.choose('nested', 2):
        outer = t.start_active_span('outer', child_of=SpanContext(9, 9, 9, 1))
    parent = SpanContext(1, 2, 3, fl)
    fin = True if how != 'open' else False
    got = tb = sp = None
    nt = nl = 0
    try:
        if how == 'span':
            with t.start_span('op', child_of=parent) as sp:
                nt, nl = earlier(E, sp, n < 2)
                if exc is not None:
                    deep(n, exc)
        else:
            with t.start_active_span('op', child_of=parent, finish_on_close=fin) as scope:
                sp = scope.span
                E.check(t.active_span is sp, 'active', 'not active')
                nt, nl = earlier(E, sp, n < 2)
                if exc is not None:
                    deep(n, exc)
    except BaseException as e:
        got, tb = e, sys.exc_info()[2]
        if got is not exc:
            raise
    E.check(got is exc, 'raised', 'the error does not go on')
    E.check(t.active_span is (outer.span if outer else None), 'active', 'another span is active afterwards')
    if how != 'span':
        E.reach('active')
    if fl & 1 != 1:
        E.check(len(sp.tags) == 0 and len(sp.logs) == 0 and len(rep.spans) == 0, 'unsampled', 'recorded')
        E.reach('unsampled')
        return
    E.check(len(rep.spans) == (1 if fin else 0), 'reported', 'reported %d times' % len(rep.spans))
    if fin:
        E.check(rep.spans[0] is sp and sp.end_time == now, 'reported', 'not finished')
    if exc is None:
        E.check(len(sp.tags) == nt and len(sp.logs) == nl, 'quiet', 'recorded without error')
        E.reach('quiet')
        return
    E.check(len(sp.tags) == nt + 1 and sp.tags[nt].key == 'error' and sp.tags[nt].vType == TagType.BOOL and sp.tags[nt].vBool is True, 'error-tag', 'no error tag')
    E.check(len(sp.logs) == nl + 1, 'logged', 'number of logs differs')
    log = sp.logs[nl]
    E.check(log.timestamp == int(now * 1000000), 'time', 'time of the log differs')
    s = msg if kind in ('value', 'odd', 'base') else str(exc)
    exact(E, log, {'event': text('error', maxlen), 'message': text(s, maxlen), 'error.object': text(s, maxlen), 'error.kind': text(str(type(exc)), maxlen), 'stack': ''.join(traceback.format_tb(tb))[:maxtb]})
    if outer:
        E.check(len(outer.span.logs) == 0 and len(outer.span.tags) == 0, 'logged', 'recorded in another span')
        outer.close()
        E.check(len(rep.spans) == (2 if fin else 1), 'reported', 'outer span not reported')
    E.reach('raised')


def deprecated(E, call, n):
    now = E.real('now', 0, 1 << 32, lo_open=True)
    E.set_clock(lambda: now)
    t = make_tracer(max_tag_value_length=E.int('maxlen', 0, 8))
    fl = E.int('flags', 0, 255)
    sp = t.start_span('op', child_of=SpanContext(1, 2, 3, fl))
    nt, nl = earlier(E, sp)
    msg = E.str('msg', n)
    at = now
    want = {'event': msg}
    payload = E.pick('payload', [None, '', 'text', 5, True, 1.5, {'a': 1}])
    if payload == 'text':
        payload = E.str('payload', n)
    if call in ('info', 'error') and not payload:
        payload = None      # whether an empty payload is recorded is left open
    p = payload
    if call in ('info', 'error'):
        if E.choose('named', 2):
            r = getattr(sp, call)(message=msg, payload=payload)
        elif payload is None:
            r = getattr(sp, call)(msg)
        else:
            r = getattr(sp, call)(msg, payload)
        if p:
            want['payload'] = p
    elif call == 'log_event':
        r = sp.log_event(msg, payload) if payload is not None else sp.log_event(msg)
        if p is not None:
            want['payload'] = p
    elif call == 'log':
        k = {'event': msg}
        if p is not None:
            k['payload'] = want['payload'] = p
        if E.choose('timed', 2):
            at = k['timestamp'] = E.real('at', 0, 1 << 32, lo_open=True)
            E.reach('timed')
        r = sp.log(**k)
    else:
        want = {'a': msg}
        if p is not None:
            want['b'] = p
        if E.choose('timed', 2):
            at = E.real('at', 0, 1 << 32, lo_open=True)
            r = sp.log_kv(dict(want), timestamp=at)
        else:
            r = sp.log_kv(dict(want))
    E.check(r is sp, 'chain', 'the span is not returned')
    E.reach('chain')
    if fl & 1 != 1:
        E.check(len(sp.tags) == 0 and len(sp.logs) == 0, 'unsampled', 'recorded')
        E.reach('unsampled')
        return
    E.check(len(sp.logs) == nl + 1, 'logged', 'number of logs differs')
    E.check(sp.logs[nl].timestamp == int(at * 1000000), 'time', 'time of the log differs')
    got = sp.logs[nl].fields
    E.check(len(got) == len(want), 'fields', 'number of fields differs')
    for f in got:
        if f.key not in want:
            E.fail('fields', 'a field out of nothing')
            continue
        v = want[f.key]
        if isinstance(v, bool):
            E.check(f.vType == TagType.BOOL and f.vBool == v, 'fields', 'field differs')
        elif isinstance(v, int):
            E.check(f.vType == TagType.LONG and f.vLong == v, 'fields', 'field differs')
        elif isinstance(v, float):
            E.check(f.vType == TagType.DOUBLE and f.vDouble == v, 'fields', 'field differs')
        else:
            E.check(f.vType == TagType.STRING, 'fields', 'field differs')
            E.check(f.vStr == text(v if not isinstance(v, dict) else str(v), t.max_tag_value_length), 'fields', 'field differs')
            if f.key != 'event':
                E.reach('payload')
    if call == 'error':
        E.check(len(sp.tags) == nt + 1 and sp.tags[nt].key == 'error' and sp.tags[nt].vBool is True, 'error-tag', 'no error tag')
    else:
        E.check(len(sp.tags) == nt, 'error-tag', 'a tag out of nothing')
    E.reach('logged')


def many(E):
    """logs with any number of fields; the caller's dictionary stays as it is"""
    E.set_clock(lambda: 1.5)
    t = make_tracer()
    sp = t.start_span('op', child_of=SpanContext(1, 2, 3, E.int('flags', 0, 3)))
    n = E.pick('fields', [0, 1, 40])
    given = dict(('field %d' % i, i) for i in range(n))
    if n:
        given['field 0'] = E.int('num', -(1 << 63), (1 << 63) - 1)
    before = dict(given)
    for i in range(E.pick('times', [1, 2, 40])):
        sp.log_kv(given, timestamp=E.pick('at', [None, 2, 2.5]) if i == 0 else 10 + i)
        E.check(list(given) == list(before) and all(given[k] is before[k] for k in before), 'untouched', 'the fields given are changed')
    if not sp.is_sampled():
        E.check(len(sp.logs) == 0, 'unsampled', 'recorded')
        return
    E.check(len(sp.logs) == i + 1, 'logged', 'number of logs differs')
    for j, l in enumerate(sp.logs):
        E.check(len(l.fields) == n, 'fields', 'number of fields differs')
        for f in l.fields:
            E.check(f.vType == TagType.LONG and f.vLong == before[f.key], 'fields', 'field differs')
        if j:
            E.check(l.timestamp == (10 + j) * 1000000, 'time', 'time of the log differs')


def chain(E):
    """every update hands back the span"""
    E.set_clock(lambda: 1.5)
    t = make_tracer()
    fl = E.int('flags', 0, 255)
    sp = t.start_span('op', child_of=SpanContext(1, 2, 3, fl))
    prio = E.pick('priority', [0, 1, 'x', None])
    for r in (lambda: sp.set_tag('k', 'v'), lambda: sp.set_operation_name('n'), lambda: sp.set_baggage_item('b', 'c'), lambda: sp.set_tag('sampling.priority', prio), lambda: sp.log_kv({'a': 1})):
        E.check(r() is sp, 'chain', 'the span is not returned')
    E.reach('chain')


def scenarios(tier):
    r = [('chain', chain, {}), ('many', many, {})]
    for how in ('span', 'scope', 'open'):
        for n in range(6 if tier == 'thorough' else 4):
            r.append(('block-%s%d' % (how, n), block, dict(how=how, n=n)))
    for c in ('info', 'error', 'log', 'log_event', 'log_kv'):
        for n in (0, 2):
            r.append(('%s%d' % (c, n), deprecated, dict(call=c, n=n)))
    return r
