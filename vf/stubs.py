"""Environment stubs, installed before the code under test is imported, in symbolic and in replay runs:
clock and random number generators ask the running scenario for their value."""
import random as _r
import time as _t

HOOK = {'time': None, 'rand': None}
_real_time = _t.time
_real_monotonic = _t.monotonic


def _time():
    h = HOOK['time']
    return _real_time() if h is None else h()


_Base = _r.Random


class VfRandom(_Base):
    def __new__(cls, *a, **k):
        return _Base.__new__(cls)

    def __init__(self, x=None):
        _Base.__init__(self)

    def seed(self, *a, **k):
        if HOOK['rand'] is None:
            try:
                _Base.seed(self, *a, **k)
            except TypeError:
                pass

    def random(self):
        h = HOOK['rand']
        return _Base.random(self) if h is None else h('random')

    def getrandbits(self, k):
        h = HOOK['rand']
        return _Base.getrandbits(self, k) if h is None else h('getrandbits', k)

    def randrange(self, start, stop=None, step=1):
        h = HOOK['rand']
        if h is None:
            return _Base.randrange(self, start) if stop is None else _Base.randrange(self, start, stop, step)
        if stop is None:
            start, stop = 0, start
        return h('randint', start, stop - 1)

    def randint(self, a, b):
        h = HOOK['rand']
        return _Base.randint(self, a, b) if h is None else h('randint', a, b)

    def uniform(self, a, b):
        h = HOOK['rand']
        return _Base.uniform(self, a, b) if h is None else a + (b - a) * h('random')

    def choice(self, seq):
        h = HOOK['rand']
        return _Base.choice(self, seq) if h is None else seq[h('randint', 0, len(seq) - 1)]


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    import tornado.ioloop      # noqa  (libraries that must keep the real clock are imported first)
    import tornado.httpclient  # noqa
    import concurrent.futures  # noqa
    import logging
    import tempfile            # noqa
    logging.disable(logging.CRITICAL)
    _t.time = _time
    _r.Random = VfRandom
    _r.SystemRandom = VfRandom
    inst = VfRandom()
    for n in ('random', 'getrandbits', 'randrange', 'randint', 'uniform', 'choice', 'seed'):
        setattr(_r, n, getattr(inst, n))


def reset():
    HOOK['time'] = None
    HOOK['rand'] = None
