import linecache
import os
import traceback


def is_target_frame(fname):
    return ('/jaeger_client/' in fname or '/thrift/' in fname or '/opentracing/' in fname or
            '/crossdock/' in fname or '/tornado/' in fname)


def blame(tb):
    """'target' when the innermost relevant frame belongs to the code under test, else 'harness'."""
    who = 'harness'
    last = ''
    for fr, ln in traceback.walk_tb(tb):
        f = fr.f_code.co_filename
        if os.path.dirname(os.path.abspath(f)) == os.path.dirname(os.path.abspath(__file__)):
            continue
        if is_target_frame(f):
            who = 'target'
            last = '%s:%d' % (os.path.basename(f), ln)
        elif '/harness/' in f:
            if who == 'target' and linecache.getline(f, ln).strip().startswith('raise '):
                continue        # a stub fails on purpose: what escapes is the caller's business
            who = 'harness'
            last = '%s:%d' % (os.path.basename(f), ln)
    return who, last
