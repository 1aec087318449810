"""
  python -m symz.cli check <PROPERTY> [--thorough]   run the property's check
  python -m symz.cli replay <file>             re-run a reported counterexample
"""
import hashlib
import importlib
import json
import os
import selectors
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from symz import harness as H          # noqa: E402
from symz.harness import jsonable, unjson  # noqa: E402

BUDGET = {'quick': 600, 'thorough': 3000}


def load(prop):
    mod = importlib.import_module('checks.' + prop.lower())
    more = importlib.import_module('checks.deep').of(prop)
    for h in mod.HARNESSES:
        if not h.deep:
            h.deep = list(more.get(h.name, ()))
    unknown = set(more) - set(h.name for h in mod.HARNESSES)
    assert not unknown, unknown
    return mod


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def cover(folder):
    """record which lines of /repo this process executes (development aid)"""
    mon = sys.monitoring
    seen = set()
    mon.use_tool_id(4, 'symz-cov')

    def on_line(code, line):
        if code.co_filename.startswith(H.REPO + os.sep):
            seen.add('%s:%d' % (os.path.relpath(code.co_filename, H.REPO), line))
        return mon.DISABLE
    mon.register_callback(4, mon.events.LINE, on_line)
    mon.set_events(4, mon.events.LINE)

    def write():
        with open(os.path.join(folder, str(os.getpid())), 'w') as f:
            f.write('\n'.join(sorted(seen)))
    return write


def task(args):
    if os.environ.get('VERIF_COV'):
        done = cover(os.environ['VERIF_COV'])
        try:
            return explore_task(args)
        finally:
            done()
    return explore_task(args)


def explore_task(args):
    prop, hname, ci, deadline, seed = args
    mod = load(prop)
    h = [x for x in mod.HARNESSES if x.name == hname][0]
    cfg = h.configs[ci]
    try:
        r = H.explore(h, cfg, deadline, seed)
        return {
            'harness': hname, 'cfg': repr(cfg)[:200], 'ci': ci,
            'violation': None if r.violation is None else
            [r.violation[0], jsonable(r.violation[1]), r.violation[2]],
            'inconclusive': r.inconclusive, 'validated': r.validated,
            'mismatch': r.mismatch, 'samples': r.samples,
            'paths': r.stats.paths, 'branches': r.stats.branches,
            'queries': r.stats.queries, 'discharged': r.stats.discharged,
            'solver_s': r.stats.solver_time, 'unknown': r.stats.unknown,
            'cut': r.stats.cut, 'witness': r.stats.witness,
            'functions': r.functions, 'wall': r.wall,
            'fallback_runs': r.fallback_runs,
        }
    except Exception as e:
        import traceback
        return {'harness': hname, 'cfg': repr(cfg)[:200], 'ci': ci,
                'error': traceback.format_exc()}


def run_tasks(tasks, n, hard):
    """every task in a forked child of its own, at most n at a time; a child
    that dies or overruns counts as an error of that task only"""
    results = []
    pending = list(reversed(tasks))
    live = {}
    sel = selectors.DefaultSelector()

    def stop(pid):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    try:
        while pending or live:
            while pending and len(live) < n:
                t = pending.pop()
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        # the code under test may print
                        sys.stdout = open(os.devnull, 'w')
                        data = json.dumps(task(t), default=str).encode()
                        with os.fdopen(w, 'wb') as f:
                            f.write(data)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = [pid, t, b'']
                sel.register(r, selectors.EVENT_READ)
            if time.time() > hard:
                for r, (pid, t, _) in live.items():
                    results.append(lost(t, 'stopped: time budget'))
                for t in pending:
                    results.append(lost(t, 'not started: time budget'))
                return results
            for key, _ in sel.select(timeout=5):
                r = key.fd
                chunk = os.read(r, 1 << 20)
                if chunk:
                    live[r][2] += chunk
                    continue
                sel.unregister(r)
                os.close(r)
                pid, t, buf = live.pop(r)
                os.waitpid(pid, 0)
                res = json.loads(buf.decode()) if buf else lost(
                    t, 'the worker died')
                results.append(res)
                if res.get('violation'):
                    return results
        return results
    finally:
        for r, (pid, t, _) in live.items():
            stop(pid)
            os.waitpid(pid, 0)


def lost(t, why):
    return {'harness': t[1], 'cfg': '', 'ci': t[2], 'lost': why,
            'violation': None, 'inconclusive': [why], 'validated': 0,
            'mismatch': [], 'samples': [], 'paths': 0, 'branches': 0,
            'queries': 0, 'discharged': 0, 'solver_s': 0.0, 'unknown': 0,
            'cut': 0, 'witness': {}, 'functions': [], 'wall': 0,
            'fallback_runs': 0}


def run_check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load(prop)
    budget = getattr(mod, 'BUDGET', BUDGET)[tier]
    deadline = t0 + budget
    evidence = os.environ.get('VERIF_EVIDENCE') or os.path.join(
        VERIF, 'evidence')
    os.makedirs(os.path.join(evidence, 'replay'), exist_ok=True)
    tasks = []
    hs = {}
    only = os.environ.get('VERIF_ONLY')
    for h in mod.HARNESSES:
        hs[h.name] = h
        if tier not in h.tiers or (only and h.name not in only.split(',')):
            continue
        if tier == 'thorough' and h.deep:
            h.configs = h.configs + h.deep
            h.max_paths = max(h.max_paths, h.deep_paths)
        for ci in range(len(h.configs)):
            tasks.append((prop, h.name, ci, deadline, seed))
    if getattr(mod, 'NATIVE', False):
        from symz import native
        native.ensure()
    # preload what every worker needs, so that forked workers share it
    import zounds  # noqa: F401
    if hasattr(mod, 'preload'):
        mod.preload()
    n = min(len(tasks), int(os.environ.get('VERIF_JOBS', '0')) or
            len(os.sched_getaffinity(0)))
    results = run_tasks(tasks, max(n, 1), deadline + 60)
    rc = 0
    violations = 0
    for res in results:
        if res.get('violation'):
            label, inputs, detail = res['violation']
            key = hashlib.sha1(json.dumps(
                [res['harness'], res['ci'], inputs], sort_keys=True,
                default=str).encode()).hexdigest()[:12]
            path = os.path.join(evidence, 'replay', '%s-%s.json' % (prop, key))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'harness': res['harness'],
                           'config_index': res['ci'], 'config': res['cfg'],
                           'inputs': inputs, 'failed': label,
                           'detail': detail,
                           'replay': 'cd /verif && ./run replay ' + path},
                          f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  harness %s config %s: %s' % (res['harness'], res['cfg'], label))
            print('  inputs: %s' % json.dumps(inputs, default=str)[:1500])
            violations += 1
            rc = 1
    inconclusive = []
    errors = []
    for res in results:
        if 'error' in res:
            errors.append(res)
            inconclusive.append('%s%s: no answer: %s' % (
                res['harness'], res['cfg'],
                str(res['error']).strip().split('\n')[-1][:300]))
            continue
        for i in res['inconclusive']:
            inconclusive.append('%s%s: %s' % (res['harness'], res['cfg'], i))
        for m in res['mismatch']:
            inconclusive.append('%s%s: encoding disagrees with the real code: %s'
                                % (res['harness'], res['cfg'], str(m)[:800]))
    good = [r for r in results if 'error' not in r]
    for k in known_findings(prop):
        if k.get('status') == 'known' and not violations:
            fn = getattr(mod, k['demo'])
            if fn():
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for res in errors:
        print('ERROR in %s %s\n%s' % (res['harness'], res['cfg'], res['error']))
    shown = set()
    for i in inconclusive[:200]:
        if not os.environ.get('VERIF_DEBUG'):
            i = i.strip().split('\n')
            i = (i[0] + (' | ' + i[-1] if len(i) > 1 else ''))[:700]
        if i.split(':', 1)[-1] not in shown and len(shown) < 20:
            shown.add(i.split(':', 1)[-1])
            print('INCONCLUSIVE ' + i)
    functions = sorted(set(f for r in good for f in r['functions']))
    samples = []
    for r in good:
        for s in r['samples'][:1]:
            samples.append({'harness': r['harness'], 'config': r['cfg'],
                            'model': s})
    per = {}
    for r in good:
        p = per.setdefault(r['harness'], dict(
            configs=0, paths=0, branches=0, queries=0, discharged=0,
            solver_s=0.0, validated=0, bounds=hs[r['harness']].bounds,
            stubs=list(hs[r['harness']].stubs), witnesses={}))
        p['configs'] += 1
        for k in ('paths', 'branches', 'queries', 'discharged', 'validated'):
            p[k] += r[k]
        p['solver_s'] = round(p['solver_s'] + r['solver_s'], 3)
        for k, v in r['witness'].items():
            p['witnesses'][k] = p['witnesses'].get(k, 0) + int(bool(v))
    tot = lambda k: sum(r[k] for r in good)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'),
            'transitions': tot('branches'),
            'traces_validated_against_impl': tot('validated'),
            'samples': samples[:8] or [{'note': 'none'}],
            'rule': 'states = symbolic paths of the real code executed to the '
                    'end (each stands for every input satisfying its path '
                    'condition); transitions = branch decisions settled by z3;'
                    ' traces_validated = path models re-run on the real package',
            'assertions_discharged': tot('discharged'),
            'solver_queries': tot('queries'),
            'solver_time_s': round(tot('solver_s'), 2),
            'solver_unknown': tot('unknown'),
            'paths_cut_by_assumptions': tot('cut'),
            'functions_encoded': functions,
            'harnesses': per,
            'inconclusive': inconclusive[:20],
            'solver_model_concrete_runs': tot('fallback_runs'),
            'exhaustive': not inconclusive and not errors and not violations,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    with open(os.path.join(evidence, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if rc == 0 and errors and not good:
        rc = 3
    if rc == 0 and inconclusive and os.environ.get('VERIF_STRICT'):
        rc = 4
    print('%s %s: %d paths, %d assertions discharged, %d queries (%.1fs solver), '
          '%d traces validated, %d inconclusive, rc=%d, %.1fs' % (
              prop, tier, tot('paths'), tot('discharged'), tot('queries'),
              tot('solver_s'), tot('validated'), len(inconclusive), rc,
              time.time() - t0))
    return rc


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load(d['property'])
    if getattr(mod, 'NATIVE', False):
        from symz import native
        native.ensure()
    h = [x for x in mod.HARNESSES if x.name == d['harness']][0]
    cfg = (h.configs + h.deep)[d['config_index']]
    st, lab, detail, _ = H.run_concrete(h, cfg, unjson(d['inputs']))
    print(st, lab)
    print(detail)
    return 1 if st == 'violation' else 0


if __name__ == '__main__':
    if sys.argv[1] == 'selftest':
        from symz import selftest
        sys.exit(selftest.main())
    if sys.argv[1] == 'check':
        if '--thorough' in sys.argv[3:]:
            os.environ['VERIF_TIER'] = 'thorough'
        sys.exit(run_check(sys.argv[2]))
    sys.exit(replay(sys.argv[2]))
