"""Concrete runs of a harness against the unmodified code (run under the interpreter of the project).

usage: replay.py HARNESS < JSON list of jobs ; prints one JSON line per job.
job: {"scenario": name, "inputs": [...], "schedule": ... , "tier": ...}
"""
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')


class Hang(KeyboardInterrupt):
    pass


def main():
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from vf import stubs, env, sched
    stubs.install()
    name = sys.argv[1]
    if 'THREADS = True' in open(os.path.join(HERE, 'harness', name + '.py'), encoding='utf-8').read():
        import threading
        threading.Lock, threading.RLock = sched.CoopLock, lambda: sched.CoopLock(True)
    tmo = float(os.environ.get('VF_REPLAY_TIMEOUT', '10'))
    h = importlib.import_module('harness.' + name)
    jobs = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for job in jobs:
        res = run_job(h, env, stubs, job, tmo)
        out.write(json.dumps(res) + '\n')
        out.flush()
    os._exit(0)


def run_job(h, env, stubs, job, tmo):
    scen = {s[0]: s for s in h.scenarios(job.get('tier', 'quick'))}
    if job['scenario'] not in scen:
        scen = {s[0]: s for s in h.scenarios('thorough')}
    s = scen[job['scenario']]
    E = env.ConcEnv([tuple(x) for x in job['inputs']])
    E.schedule = job.get('schedule')
    stubs.reset()
    from vf import sched
    sched.reset()

    def on_alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, tmo)
    status = 'ok'
    try:
        s[1](E, **s[2])
    except env.AssumeFailed:
        status = 'assume'
    except sched.Deadlock as e:
        status = 'deadlock'
        E.failures.append(('deadlock', str(e)))
    except Hang:
        status = 'hang'
        E.failures.append(('hang', 'no progress within %gs' % tmo))
    except Exception as e:
        from vf.blame import blame
        who, where = blame(e.__traceback__)
        status = 'exc:' + type(e).__name__
        if who == 'target':
            E.failures.append(('uncaught:' + type(e).__name__, 'exception escapes at %s: %s' % (where, e)))
        else:
            status = 'harness:' + traceback.format_exc(limit=-8)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        stubs.reset()
        if getattr(E, 'sched', None) is not None:
            E.sched.shutdown()
    return {'status': status, 'failures': E.failures, 'labels': E.labels, 'observed': E.observed,
            'diverged': E.diverged}


if __name__ == '__main__':
    main()
