"""bin/check: decide one property.  Exit 0 held on everything explored, 1 violation (replayed on the
unmodified code), 2 the check itself failed (no answer)."""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
EVID = os.environ.get('VF_OUT') or os.path.join(HERE, 'evidence')
VENV_PY = '/opt/venv/bin/python'
VENV_SP = '/opt/venv/lib/python3.12/site-packages'

QUICK_BUDGET = 240.0
THOROUGH_BUDGET = 700.0


def harness_name(pid):
    for f in sorted(os.listdir(os.path.join(HERE, 'harness'))):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            return f[:-3]
    raise SystemExit('no harness for ' + pid)


def run_replays(hname, jobs, timeout=10.0, total=None):
    """Run jobs on the unmodified code; returns a list of results (None where the process died)."""
    env = dict(os.environ)
    env.update({'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'VF_REPLAY_TIMEOUT': str(timeout)})
    res = []
    try:
        p = subprocess.run([VENV_PY, '-B', os.path.join(HERE, 'vf', 'replay.py'), hname],
                           input=json.dumps(jobs), capture_output=True, text=True, env=env, cwd='/tmp',
                           timeout=total or (timeout * (len(jobs) + 1) + 20))
        lines = [l for l in p.stdout.split('\n') if l.strip()]
        err = p.stderr
    except subprocess.TimeoutExpired as e:
        o = e.stdout or ''
        if isinstance(o, bytes):
            o = o.decode('utf-8', 'replace')
        lines = [l for l in o.split('\n') if l.strip()]
        err = 'timeout'
    for l in lines:
        res.append(json.loads(l))
    if len(res) < len(jobs):
        # the process died or hung hard on job len(res)
        hung = err == 'timeout'
        res.append({'status': 'hang' if hung else 'died', 'failures': [['hang', 'hard hang']] if hung else [],
                    'labels': {}, 'observed': [], 'diverged': 0, 'stderr': err[-2000:]})
    while len(res) < len(jobs):
        res.append(None)
    return res


def load_known():
    """known findings: lines 'KNOWN property=<id> scenario=<name> label=<label> [match=<substr>] :: text'"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('KNOWN '):
                head, _, text = line[6:].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split())
                d['text'] = text
                out.append(d)
    return out


def main():
    t_start = time.perf_counter()
    pid = sys.argv[1]
    verbose = '-v' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    for a in sys.argv[2:]:
        if a.startswith('--scenario='):
            only = a.split('=', 1)[1]
        if a == '--thorough':
            tier = 'thorough'
    sys.dont_write_bytecode = True
    sys.path.append(VENV_SP)
    sys.path.insert(0, REPO)
    import importlib.abc  # noqa
    from vf import stubs, instr, core, models, values, explore
    stubs.install()
    hname = harness_name(pid)
    meta = {}
    src = open(os.path.join(HERE, 'harness', hname + '.py'), encoding='utf-8').read()
    threads = 'THREADS = True' in src
    prefixes = ['jaeger_client', 'harness', 'crossdock', 'thrift.protocol.TCompactProtocol',
                'thrift.protocol.TProtocol', 'thrift.transport.TTransport', 'thrift.Thrift', 'thrift.TSerialization',
                'opentracing']
    exclude = ['jaeger_client.thrift_gen.sampling', 'jaeger_client.thrift_gen.zipkincore',
               'jaeger_client.thrift_gen.baggage', 'jaeger_client.thrift_gen.dependency', 'opentracing.harness',
               'opentracing.scope_managers.gevent']
    tp = ['jaeger_client'] if threads else []
    f = instr.Finder(prefixes, exclude, [p for p in tp])
    if threads:
        f.exclude = list(exclude)
    sys.meta_path.insert(0, f)
    sys.setrecursionlimit(8000)
    h = importlib.import_module('harness.' + hname)
    scen = h.scenarios(tier)
    if only:
        scen = [s for s in scen if s[0].startswith(only)]
    known = [k for k in load_known() if k['property'] == pid]

    reported = []
    known_hit = {}
    groups = {}
    unrepro = []
    state = {'replayed': 0, 'mism': 0, 'validated': 0}

    def is_known(sname, label, msg):
        for k in known:
            if k.get('scenario', sname) == sname and k['label'] == label and k.get('match', '') in msg:
                return k
        return None

    def save_witness(sname, label, msg, w, symlabel):
        d = os.path.join(EVID, 'witness')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (pid, tier, len(reported)))
        with open(path, 'w') as fo:
            json.dump({'property': pid, 'harness': hname, 'scenario': sname, 'label': label, 'message': msg,
                       'symbolic_label': symlabel, 'inputs': w['inputs'], 'schedule': w.get('schedule'),
                       'tier': tier, 'replay_cmd': 'bin/replay ' + path}, fo, indent=1)
        return path

    def on_violation(i, w):
        sname = scen[i][0]
        key = (sname, w['label'])
        g = groups.setdefault(key, {'n': 0, 'done': False})
        if g['done'] or g['n'] >= 4:
            return False
        g['n'] += 1
        job = {'scenario': sname, 'inputs': w['inputs'], 'tier': tier, 'schedule': w.get('schedule')}
        res = run_replays(hname, [job], timeout=8.0)[0]
        state['replayed'] += 1
        fl = [x[0] for x in res['failures']] if res else []
        ok = bool(fl) and (w['label'] in fl or True)
        if w['label'] in ('deadlock', 'unbounded-work'):
            ok = bool(fl)
        if verbose:
            sys.stderr.write('violation %s %s: %s\n   inputs %s %s\n   replay %s\n' % (
                sname, w['label'], w['msg'], json.dumps(w['inputs'])[:600], w.get('schedule') or '', json.dumps(res)[:900]))
        if not ok:
            unrepro.append({'scenario': sname, 'label': w['label'], 'msg': w['msg'], 'inputs': w['inputs'],
                            'incomplete': w['incomplete'], 'replay': res})
            return False
        label, msg = res['failures'][0]
        for x in res['failures']:
            if x[0] == w['label']:
                label, msg = x
        k = is_known(sname, label, msg)
        if k:
            known_hit[k['text']] = k
            g['done'] = True
            return False
        g['done'] = True
        reported.append((save_witness(sname, label, msg, w, w['label']), sname, label, msg))
        return '--all' not in sys.argv

    budget = getattr(h, 'BUDGET', {}).get(tier, QUICK_BUDGET if tier == 'quick' else THOROUGH_BUDGET)
    tmo = getattr(h, 'SOLVER_TIMEOUT_MS', 10000)
    samples_per = getattr(h, 'SAMPLES', (12 if threads else 4) if tier == 'quick' else 10)
    tot, stats, funcs, finished, errors = explore.explore_all(
        scen, budget, nproc=int(os.environ.get('VF_NPROC', '8')), timeout_ms=tmo, samples_per=samples_per,
        on_violation=on_violation, verbose=verbose)

    # ------------------------------------------------ validation of sampled paths on the real code
    jobs, refs = [], []
    if not reported:
        for i, t in enumerate(tot):
            for s in t['samples']:
                jobs.append({'scenario': t['name'], 'inputs': s['inputs'], 'tier': tier,
                             'schedule': s.get('schedule')})
                refs.append((t['name'], s))
    mism = []
    if jobs:
        res = run_replays(hname, jobs, timeout=8.0, total=180)
        for (sname, s), r in zip(refs, res):
            if r is None:
                continue
            if r['failures']:
                # the real code fails a check on a path the engine considered fine
                label, msg = r['failures'][0]
                k = is_known(sname, label, msg)
                if k:
                    known_hit[k['text']] = k
                    continue
                if not reported or '--all' in sys.argv:
                    reported.append((save_witness(sname, label, msg, s, None), sname, label, msg))
            elif r['status'] == 'assume':
                continue
            elif r['status'] != 'ok':
                mism.append({'scenario': sname, 'why': r['status'] + r.get('stderr', ''), 'inputs': s['inputs']})
            elif threads and r['diverged']:
                mism.append({'scenario': sname, 'why': 'schedule diverged', 'inputs': s['inputs'], 'schedule': s.get('schedule')})
            elif s['complete'] and [list(x) for x in s['observed']] != [list(x) for x in r['observed']]:
                mism.append({'scenario': sname, 'why': 'observed %s != %s' % (s['observed'], r['observed']),
                             'inputs': s['inputs']})
            else:
                state['validated'] += 1

    # ------------------------------------- witnesses of paths the engine has no encoding for: real code
    wit = [(t['name'], inp) for t in tot for inp in t['fallback']]
    witnessed = 0
    t_wit = time.perf_counter()
    for k in range(0, len(wit), 40):
        if reported or time.perf_counter() - t_wit > 90:
            break
        part = wit[k:k + 40]
        res = run_replays(hname, [{'scenario': n, 'inputs': i, 'tier': tier} for n, i in part], timeout=4.0, total=60)
        for (sname, inp), r in zip(part, res):
            if not r or r['status'] == 'assume':
                continue
            witnessed += 1
            if r['failures'] and not reported:
                label, msg = r['failures'][0]
                k2 = is_known(sname, label, msg)
                if k2:
                    known_hit[k2['text']] = k2
                    continue
                reported.append((save_witness(sname, label, msg, {'inputs': inp}, None), sname, label, msg))

    # --------------------------------------------------------------------------------- verdict
    paths = sum(t['paths'] for t in tot)
    incomplete, inconclusive, labels, status = {}, {}, {}, {}
    for t in tot:
        for a, b in t['incomplete'].items():
            incomplete[a] = incomplete.get(a, 0) + b
        for a, b in t['inconclusive'].items():
            inconclusive[a] = inconclusive.get(a, 0) + b
        for a, b in t['labels'].items():
            labels[t['name'] + '/' + a] = b
        for a, b in t['status'].items():
            status[a] = status.get(a, 0) + b
    left = sum(t['left'] for t in tot)
    need = getattr(h, 'REACH', [])
    seen = set(k.split('/', 1)[1] for k in labels)
    missing = [l for l in need if l not in seen] if not only else []
    exhaustive = finished and not left and not incomplete and not inconclusive and not errors and not unrepro
    wall = time.perf_counter() - t_start

    code = 0
    notes = []
    if reported:
        code = 1
    else:
        # what is not a violation shown on the real code is never an alarm; with VF_STRICT (used while
        # developing, on the unchanged tree) every doubt about the engine or the harness is an error
        strict = 2 if os.environ.get('VF_STRICT') else 0
        if errors:
            code = 2
            notes += ['worker error: ' + e[-1500:] for e in errors[:3]]
        bad = [u for u in unrepro if not u['label'].startswith('uncaught:') and not u['incomplete']]
        if bad:
            code = max(code, strict)
            notes.append('counterexample not reproduced on the real code: %s' % json.dumps(bad[0])[:1500])
        if mism:
            code = max(code, strict)
            notes.append('engine and real code disagree: %s' % json.dumps(mism[0])[:1500])
        if missing:
            code = max(code, strict)
            notes.append('vacuous: labels never reached: %s' % missing)
        if any(k.startswith('harness exception') for k in inconclusive):
            code = max(code, strict)
            notes.append([k for k in inconclusive if k.startswith('harness exception')][0])
        if paths == 0:
            code = 2
    level = 'model_checking'
    samples = []
    for t in tot:
        for s in t['samples'][:1]:
            samples.append({'scenario': t['name'], 'inputs': s['inputs'][:20], 'observed': s['observed'][:8]})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'states': paths,
            'transitions': stats.get('decisions', 0),
            'traces_validated_against_impl': state['validated'],
            'samples': samples[:8],
            'exhaustive': bool(exhaustive),
            'explanation': 'states = symbolic paths (each stands for every input value satisfying its path '
                           'condition); transitions = branch decisions on symbolic conditions; '
                           'traces_validated = path witnesses replayed on the unmodified code with equal observations',
            'bounds': getattr(h, 'BOUNDS', ''),
            'functions_encoded': sorted(k for k in funcs if not k.startswith('harness.')),
            'scenarios': [{'name': t['name'], 'paths': t['paths'], 'checks': t['labels'], 'unexplored_prefixes': t['left'],
                           'max_decisions': t['maxdepth'], 'cpu_s': round(t['time'], 2)} for t in tot],
            'solver': {'queries': stats.get('queries', 0), 'sat': stats.get('sat', 0), 'unsat': stats.get('unsat', 0),
                       'unknown': stats.get('unknown', 0), 'solver_s': round(stats.get('solver_s', 0.0), 2),
                       'assertions_checked': stats.get('check_queries', 0)},
            'path_status': status,
            'incomplete': incomplete,
            'inconclusive': inconclusive,
            'witnesses_of_unencoded_paths_run_on_real_code': witnessed,
            'unreproduced': unrepro[:5],
            'known_findings_hit': sorted(known_hit),
            'notes': [n[:600] for n in notes],
        },
        'assumptions': list(getattr(h, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1)
        fo.write('\n')
    print('%s %s: %d paths, %d decisions, %d queries (%.1fs solver), %d assertions, %d replays validated, '
          'exhaustive=%s, %.1fs' % (pid, tier, paths, stats.get('decisions', 0), stats.get('queries', 0),
                                    stats.get('solver_s', 0.0), stats.get('check_queries', 0), state['validated'],
                                    exhaustive, wall))
    if verbose or code == 2:
        for t in tot:
            print('  scenario', t['name'], 'paths', t['paths'], 'left', t['left'], t['status'], 'cpu %.1f' % t['time'])
            for tb in t['tb'][:2]:
                print('   | ' + str(tb)[-1800:].replace('\n', '\n   | '))
        print('  incomplete', incomplete, 'inconclusive', {k[:1500]: v for k, v in inconclusive.items()})
        print('  labels', str(labels)[:600])
        for u in unrepro[:4]:
            print('  unreproduced', json.dumps(u)[:1200])
        for u in mism[:4]:
            print('  mismatch', json.dumps(u)[:1500])
    for k in known:
        if k['text'] in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    for path, sname, label, msg in reported:
        print('  %s in %s: %s' % (label, sname, msg))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for n in notes:
        print('NO-ANSWER:' if code == 2 else 'INCONCLUSIVE:', n)
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
