#!/usr/bin/env python3-vt
"""Decides one property:  run.py C06 [--tier quick|thorough] [--jobs N] [--case I] [--verbose]
   Replays a saved counterexample:  run.py --replay FILE
"""
import argparse
import atexit
import importlib
import importlib.util
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
REAL_PY = '/opt/venv/bin/python'


SCRATCH = None


def scratch_root():
    """One scratch directory for everything the replays write; removed at the end of the run."""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='verif.')
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH


class Replayer(object):
    def __init__(self, preload):
        self.preload = preload
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TMPDIR=scratch_root())
        self.p = subprocess.Popen([REAL_PY, os.path.join(HERE, 'symex', 'replayd.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd='/tmp')
        self.p.stdin.write(json.dumps({'preload': self.preload}) + '\n')
        self.p.stdin.flush()
        self.owner = os.getpid()

    def run(self, module, harness, params, inputs, timeout=60):
        if self.p is None or (self.owner == os.getpid() and self.p.poll() is not None):
            self.start()
        self.p.stdin.write(json.dumps({'module': module, 'harness': harness, 'params': params, 'inputs': inputs,
                                       'timeout': timeout}) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {'status': 'error', 'label': 'replay service ended', 'obs': [], 'checks': 0}
        return json.loads(line)

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def stop(self):
        if self.p is not None and self.owner != os.getpid():
            return             # the parent keeps it for the next case
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


PREPARED = {}


def prepare(module):
    """Loads the code under test and the harness in their instrumented form (once; the workers are forked afterwards)."""
    if module not in PREPARED:
        from symex import core, loader, calls, symctx
        from models import symbolic as smodels
        import z3
        for m in list(sys.modules):
            if m == 'checks' or m.startswith('checks.'):
                del sys.modules[m]
        for m in smodels.MODELS:
            sys.modules.pop(m, None)
        finder = loader.install(smodels.MODELS)
        finder.missing = smodels.model
        mod = importlib.import_module(module)
        for r in getattr(mod, 'REQUIRES', []):
            importlib.import_module(r)
        PREPARED[module] = (finder, smodels, mod)
    return PREPARED[module]


def case_worker(conn, module, harness, params, opts, deadline, seed, replay=None):
    """Explores all paths of one case; sends the result over conn."""
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    res = {'harness': harness, 'params': params, 'paths': 0, 'ok': 0, 'ignored': 0, 'unsupported': {}, 'spurious': [],
           'violations': [], 'validated': 0, 'mismatch': [], 'exhaustive': True, 'checks': 0, 'notes': [], 'samples': []}
    t0 = time.time()
    try:
        from symex import core, calls, symctx
        finder, smodels, mod = prepare(module)
        if replay is None:
            replay = Replayer(getattr(mod, 'PRELOAD', []))
        fn = getattr(mod, harness)
        snap = finder.snapshot()
        smodels.begin()
        eng = core.Engine(seed=seed, solver_timeout_ms=opts.get('solver_ms', 20000))
        eng.deadline = deadline
        eng.path_limit_s = opts.get('path_s', 60.0)
        sample_cap = opts.get('samples', 40)
        every = 1
        uns_replayed = {}

        def to_replay(model, ctx, variant=0):
            inputs, ev = ctx.concretize(model, variant)
            return inputs, ev, replay.run(module, harness, params, inputs)

        def note_violation(label, inputs, r):
            res['violations'].append({'label': r.get('label', label), 'symbolic_label': label, 'inputs': inputs,
                                      'detail': r.get('detail', '')})

        while True:
            eng.start_path()
            finder.restore(snap)
            ctx = symctx.SymCtx()
            smodels.reset(ctx)
            status, info, model = 'ok', None, None
            try:
                fn(ctx, **params)
            except core.IgnorePath:
                status = 'ignored'
            except core.Violation as v:
                status, info, model = 'violation', v.label, v.model
            except core.Unsupported as u:
                status, info = 'unsupported', u.why
            except core.OutOfBudget:
                res['exhaustive'] = False
                res['notes'].append('time budget reached')
                break
            except RecursionError:
                status, info = 'violation', 'uncaught RecursionError'
            except Exception as e:
                status, info = 'violation', 'uncaught %s: %s' % (type(e).__name__, str(e)[:200] if not isinstance(e, core.Steer) else '')
                if opts.get('verbose'):
                    traceback.print_exc()
            res['paths'] += 1
            res['checks'] += ctx.checks
            if status == 'ignored':
                res['ignored'] += 1
            else:
                if status != 'violation' and eng.unknown_here:
                    status, info = 'unsupported', 'solver returned unknown'
                try:
                    if model is None:
                        model = eng.current_model()
                except core.Steer:
                    model = None
                if status == 'ok':
                    res['ok'] += 1
                    n = res['ok']
                    if model is not None and res['validated'] < sample_cap and n % every == 0:
                        inputs, ev, r = to_replay(model, ctx)
                        obs = ctx.observed(ev)
                        if r['status'] == 'ok':
                            res['validated'] += 1
                            if len(res['samples']) < 2:
                                res['samples'].append({'inputs': inputs, 'observed': r['obs']})
                            bad = obs_diff(obs, r['obs'])
                            if bad:
                                res['mismatch'].append({'inputs': inputs, 'diff': bad})
                                res['exhaustive'] = False
                        elif r['status'] == 'violation':
                            note_violation('concrete run of a passing path', inputs, r)
                        else:
                            res['mismatch'].append({'inputs': inputs, 'diff': [r.get('status'), r.get('label'), r.get('detail', '')[-600:]]})
                            res['exhaustive'] = False
                        if n >= 20:
                            every = max(1, min(every * 2, 64)) if n % 20 == 0 else every
                elif status == 'violation':
                    inputs, ev, r = to_replay(model, ctx)
                    if r['status'] == 'violation':
                        note_violation(info, inputs, r)
                    else:
                        res['spurious'].append({'label': info, 'inputs': inputs, 'concrete': r.get('status'), 'obs_concrete': r.get('obs'),
                                                'obs_symbolic': ctx.observed(ev), 'detail': r.get('detail', '')[-600:]})
                        res['exhaustive'] = False
                        if len(res['spurious']) > 20:
                            res['notes'].append('too many spurious counterexamples')
                            break
                elif status == 'unsupported':
                    res['exhaustive'] = False
                    res['unsupported'][info] = res['unsupported'].get(info, 0) + 1
                    k = uns_replayed.get(info, 0)
                    if model is not None and k < opts.get('unsupported_replays', 25):
                        uns_replayed[info] = k + 1
                        for variant in (0, 1):
                            inputs, ev, r = to_replay(model, ctx, variant)
                            if r['status'] == 'violation':
                                note_violation('unsupported: ' + info, inputs, r)
                                break
            if res['violations']:
                break
            if not eng.next_path():
                break
        replay.stop()
        res['stats'] = eng.stats
        res['functions'] = sorted(calls.ENTERED)
    except BaseException as e:
        res['exhaustive'] = False
        res['crash'] = ''.join(traceback.format_exception(e))[-3000:]
    res['wall_s'] = time.time() - t0
    conn.send(res)
    conn.close()


def obs_diff(a, b):
    if len(a) != len(b):
        return ['number of observations', a, b]
    for x, y in zip(a, b):
        if x[0] != y[0] or not obs_same(x[1], y[1]):
            return [x, y]
    return None


def obs_same(x, y):
    if isinstance(x, dict) and 'skip' in x:
        return True
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(obs_same(a, b) for a, b in zip(x, y))
    return x == y


def load_native(name):
    """The check module as plain Python, for its list of cases."""
    path = os.path.join(HERE, 'checks', name + '.py')
    spec = importlib.util.spec_from_file_location('native_' + name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--case', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    prop = a.prop.upper()
    native = load_native(prop.lower())
    module = 'checks.' + prop.lower()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = a.budget or (getattr(native, 'BUDGET_QUICK', 240) if a.tier == 'quick' else getattr(native, 'BUDGET_THOROUGH', 1500))
    cases = native.cases(a.tier)
    if a.list:
        for i, c in enumerate(cases):
            print(i, c)
        return 0
    todo = list(enumerate(cases))
    if a.case is not None:
        todo = [todo[a.case]]
    deadline = t0 + budget
    try:
        prepare(module)
    except BaseException:
        pass               # each worker reports it
    ctx = mp.get_context('fork')
    running, results = [], []
    stop = False
    slots = [Replayer(list(getattr(native, 'PRELOAD', None) or getattr(native, 'REQUIRES', []))) for _ in range(min(a.jobs, len(todo)))]
    for s in slots:
        s.start()
    while todo or running:
        while todo and len(running) < a.jobs and not stop:
            i, c = todo.pop(0)
            harness, params = c[0], c[1]
            opts = dict(c[2]) if len(c) > 2 else {}
            if a.verbose:
                opts['verbose'] = True
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=case_worker, args=(w, module, harness, params, opts, deadline, seed, slots[0]))
            p.start()
            w.close()
            running.append((i, p, r, harness, params, slots.pop(0)))
        for item in list(running):
            i, p, r, harness, params, slot = item
            if r.poll(0.005):
                try:
                    res = r.recv()
                except EOFError:
                    res = None
            elif not p.is_alive():
                res = None
                if r.poll(0.05):
                    try:
                        res = r.recv()
                    except EOFError:
                        pass
            elif time.time() > deadline + 75:
                p.kill()
                res = None
            else:
                continue
            running.remove(item)
            p.join(5)
            if p.is_alive():
                p.kill()
            if res is None or res.get('crash'):
                slot.kill()
                slot.start()
            slots.append(slot)
            if res is None:
                res = {'harness': harness, 'params': params, 'paths': 0, 'ok': 0, 'ignored': 0, 'unsupported': {}, 'spurious': [],
                       'violations': [], 'validated': 0, 'mismatch': [], 'exhaustive': False, 'checks': 0,
                       'notes': ['worker ended without a result'], 'wall_s': 0, 'samples': []}
            res['case'] = i
            results.append(res)
            if a.verbose:
                report_case(res)
            if res['violations']:
                stop = True
                todo = []
        if stop:
            for item in running:
                item[1].kill()
                slots.append(item[5])
            running = []
        time.sleep(0.002)
    for s in slots:
        s.kill()
    return finish(prop, module, native, a.tier, seed, results, len(cases), time.time() - t0)


def report_case(res):
    st = res.get('stats', {})
    print('case %d %s %s: paths %d ok %d ignored %d unsup %s spurious %d viol %d valid %d mism %d q %d solver %.1fs wall %.1fs %s' % (
        res['case'], res['harness'], json.dumps(res['params'])[:80], res['paths'], res['ok'], res['ignored'], res['unsupported'],
        len(res['spurious']), len(res['violations']), res['validated'], len(res['mismatch']), st.get('queries', 0),
        st.get('solver_s', 0), res['wall_s'], res['notes']), flush=True)
    for k in ('spurious', 'mismatch', 'violations'):
        for x in res[k][:2]:
            print('   ', k, json.dumps(x)[:1500])
    if res.get('crash'):
        print(res['crash'])


def finish(prop, module, native, tier, seed, results, ncases, wall):
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    tot = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0, 'branches': 0, 'checks': 0, 'forced': 0, 'states': 0, 'transitions': 0}
    functions = set()
    inconclusive = []
    vacuous = []
    for r in results:
        for k in tot:
            tot[k] += r.get('stats', {}).get(k, 0)
        functions |= set(r.get('functions', []))
        why = []
        if r.get('crash'):
            why.append('worker failed: ' + r['crash'].strip().splitlines()[-1])
        if r['unsupported']:
            why.append('not encoded: ' + ', '.join('%s (%d paths)' % kv for kv in sorted(r['unsupported'].items())))
        if r['spurious']:
            why.append('%d counterexamples did not reproduce' % len(r['spurious']))
        if r['mismatch']:
            why.append('%d model runs differ from the concrete run' % len(r['mismatch']))
        why += r['notes']
        if why:
            inconclusive.append({'case': r['case'], 'harness': r['harness'], 'params': r['params'], 'why': why,
                                 'first': (r['spurious'] or r['mismatch'] or [None])[0]})
        elif (r['ok'] == 0 or r['checks'] == 0) and not r['violations']:
            vacuous.append({'case': r['case'], 'harness': r['harness'], 'params': r['params']})
    violations = [(r, v) for r in results for v in r['violations']]
    paths = sum(r['paths'] for r in results)
    validated = sum(r['validated'] for r in results)
    exhaustive = len(results) == ncases and not inconclusive and not vacuous and not violations
    note = getattr(native, 'BOUNDS', {})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': max(1, tot['states'] + paths), 'transitions': max(1, tot['transitions']),
            'traces_validated_against_impl': validated,
            'samples': samples(results),
            'functions_encoded': sorted(functions),
            'bounds': note.get(tier, note) if isinstance(note, dict) else note,
            'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'],
            'assertions_discharged': tot['checks'], 'solver_s': round(tot['solver_s'], 2), 'paths': paths,
            'paths_ignored_by_assumption': sum(r['ignored'] for r in results),
            'cases': ncases, 'cases_run': len(results), 'exhaustive_within_bounds': exhaustive,
            'inconclusive': inconclusive[:20], 'vacuous': vacuous[:20],
        },
        'assumptions': getattr(native, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
    }
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            pass
    except OSError:
        pass
    code = 0
    if violations:
        rdir = os.path.join(evdir, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for i, (r, v) in enumerate(violations[:3]):
            path = os.path.join(rdir, '%s-%d.json' % (prop, i))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'module': module, 'harness': r['harness'], 'params': r['params'],
                           'inputs': v['inputs'], 'label': v['label'], 'detail': v['detail']}, f, indent=1)
            print('%s: %s  [%s %s]' % (prop, v['label'], r['harness'], json.dumps(r['params'])))
            print('   inputs: %s' % json.dumps(v['inputs'])[:1000])
            if v['detail']:
                print('   ' + v['detail'].strip().splitlines()[-1])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        ev['violation'] = {'label': violations[0][1]['label'], 'inputs': violations[0][1]['inputs']}
        code = 1
    for x in inconclusive[:8]:
        print('INCONCLUSIVE property=%s case=%d %s %s: %s' % (prop, x['case'], x['harness'], json.dumps(x['params'])[:100], '; '.join(x['why'])[:400]))
    for x in vacuous[:8]:
        print('VACUOUS property=%s case=%d %s %s' % (prop, x['case'], x['harness'], json.dumps(x['params'])[:200]))
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d paths, %d assertions, %d queries (%.1fs solver), %d traces validated, %.1fs%s' % (
        prop, tier, len(results), paths, tot['checks'], tot['queries'], tot['solver_s'], validated, wall,
        ', exhaustive within bounds' if exhaustive else ''))
    return code


def samples(results):
    out = []
    for r in results[:6]:
        out.append({'case': r['case'], 'harness': r['harness'], 'params': r['params'], 'paths': r['paths'], 'traces': r['samples']})
    return out


def do_replay(path):
    with open(path) as f:
        d = json.load(f)
    rp = Replayer([])
    r = rp.run(d['module'], d['harness'], d['params'], d['inputs'])
    rp.stop()
    print(json.dumps(r, indent=1))
    if r['status'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
