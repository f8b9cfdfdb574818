"""Runs one property's harness: symbolic exploration of every configuration,
replay of counterexamples on the real code, cross-validation of sampled paths,
evidence."""
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

from . import core, loader

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
TOOL = 3            # tool id for sys.monitoring
MEM_LIMIT = 6 << 30


def load_harness(pid):
    return importlib.import_module('harness.' + pid.lower())


def trace_functions():
    """Record which functions of the code under test are executed."""
    seen = {}
    mon = sys.monitoring
    root = loader.REPO + '/schubertpy/'

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root):
            seen[fn[len(loader.REPO) + 1:] + ':' + code.co_qualname] = 1
        return mon.DISABLE
    try:
        mon.use_tool_id(TOOL, 'verif')
    except ValueError:
        pass
    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.set_events(TOOL, mon.events.PY_START)
    return seen


# ---------------------------------------------------------------- children
def explore_cfg(mod, cfg, opts):
    """Explore one configuration (in a forked child)."""
    import schubertpy as sp
    rnd = random.Random(opts['seed'] * 1000003 + opts['index'])
    E = core.Symbolic(timeout_ms=cfg.get('timeout_ms', 60000), deadline=opts['deadline'],
                      concretize_inputs=opts['concrete_inputs'],
                      conc_width=cfg.get('conc_width', 4))
    E.on_reset.append(loader.reset_memos)
    path_limit = cfg.get('path_limit', 60)
    want = opts['samples']
    res = {'status': 'ok', 'samples': [], 'mode': 'concretised inputs' if opts['concrete_inputs'] else 'symbolic'}
    npath = [0]
    seen = trace_functions()

    def alarm(sig, frm):
        raise core.Violation('does not terminate', E.values(E.model), None)
    signal.signal(signal.SIGALRM, alarm)

    def fn(E):
        signal.setitimer(signal.ITIMER_REAL, path_limit)
        try:
            mod.run(E, sp, cfg)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if E.nchecks:
            E.checked_paths = getattr(E, 'checked_paths', 0) + 1
            # reservoir sample of path models, with the outcome they predict
            npath[0] += 1
            if len(res['samples']) < want:
                slot = len(res['samples'])
                res['samples'].append(None)
            else:
                slot = rnd.randrange(npath[0])
            if slot < want:
                vals = E.values(E.model)
                out = E.concrete_of(E.outcome, E.model) if E.outcome is not None else None
                res['samples'][slot] = {'values': vals, 'outcome': out}
    try:
        E.explore(fn)
    except core.Violation as v:
        res.update(status='violation', label=v.label, values=v.values, info=v.info)
    except core.EngineError as ex:
        res.update(status='engine', why=str(ex)[:300])
    except core.PathAbort:
        res.update(status='engine', why='abort outside a path')
    except RecursionError:
        res.update(status='engine', why='recursion limit')
    except MemoryError:
        res.update(status='engine', why='out of memory')
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        res.update(status='engine', why='%s: %s at %s' % (type(ex).__name__, str(ex)[:200],
                   [('%s:%d' % (f.filename.split('/')[-1], f.lineno)) for f in tb[-4:]]))
    res['stats'] = E.stats.as_dict()
    res['checked_paths'] = getattr(E, 'checked_paths', 0)
    res['functions'] = sorted(seen)
    return res


def _child(mod, cfg, opts, w):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        sys.setrecursionlimit(3000)
        t = time.time()
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        res = explore_cfg(mod, cfg, opts)
        res['wall'] = time.time() - t
    except BaseException as ex:
        res = {'status': 'engine', 'why': 'child: %r' % (ex,), 'stats': core.Stats().as_dict(),
               'samples': [], 'functions': [], 'checked_paths': 0, 'mode': 'crash', 'wall': 0.0}
    with os.fdopen(w, 'wb') as f:
        pickle.dump(res, f)
    os._exit(0)


def run_tasks(mod, tasks, jobs):
    """tasks: list of (key, cfg, opts); yields (key, result)."""
    pending = list(tasks)
    running = {}
    try:
        while pending or running:
            while pending and len(running) < jobs:
                key, cfg, opts = pending.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    _child(mod, cfg, opts, w)
                os.close(w)
                running[r] = (key, pid, [], time.time(), opts)
            rs, _, _ = select.select(list(running), [], [], 1.0)
            for r in rs:
                key, pid, buf, t0, opts = running[r]
                data = os.read(r, 1 << 20)
                if data:
                    buf.append(data)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    res = pickle.loads(b''.join(buf))
                except Exception:
                    res = {'status': 'engine', 'why': 'child died (memory?)', 'stats': core.Stats().as_dict(),
                           'samples': [], 'functions': [], 'checked_paths': 0, 'mode': 'crash', 'wall': time.time() - t0}
                yield key, res
            now = time.time()
            for r, (key, pid, buf, t0, opts) in list(running.items()):
                if now > opts['deadline'] + 60:
                    os.kill(pid, signal.SIGKILL)
    finally:                     # also when the consumer stops early
        for r, (key, pid, buf, t0, opts) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
            except OSError:
                pass


# ---------------------------------------------------------------- real code
def concrete_main(path_in, path_out):
    """Subprocess: run harnesses on plain integers against the unpatched code."""
    with open(path_in) as f:
        job = json.load(f)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out = []

    def dump():
        with open(path_out + '.tmp', 'w') as f:
            json.dump(out, f)
        os.replace(path_out + '.tmp', path_out)
    try:
        sp = loader.install_concrete()
    except Exception as ex:
        out.append({'status': 'violation', 'label': 'import failed: %r' % (ex,)})
        dump()
        return
    mod = load_harness(job['property'])

    class Timeout(BaseException):
        pass

    def alarm(sig, frm):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    for item in job['items']:
        C = core.Concrete(item['values'])
        res = {}
        signal.setitimer(signal.ITIMER_REAL, item.get('limit', 60))
        try:
            C.run(lambda e: mod.run(e, sp, item['cfg']))
            if C.violation:
                res = {'status': 'violation', 'label': C.violation.label, 'info': C.violation.info}
            elif C.precondition_failed:
                res = {'status': 'precondition'}
            else:
                res = {'status': 'ok', 'outcome': C.outcome, 'checks': C.nchecks}
        except Timeout:
            res = {'status': 'violation', 'label': 'does not terminate'}
        except MemoryError:
            res = {'status': 'violation', 'label': 'out of memory'}
        except Exception as ex:
            res = {'status': 'error', 'why': repr(ex)[:300]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            json.dumps(res)
        except TypeError:
            res['outcome'] = repr(res.get('outcome'))
        out.append(res)
        if len(out) % 16 == 0:
            dump()
    dump()


def run_concrete(pid, items, timeout):
    """items: [{'cfg','values','limit'}] -> results on the real code."""
    import tempfile
    if not items:
        return []
    d = tempfile.mkdtemp(prefix='verif-')
    pin, pout = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
    with open(pin, 'w') as f:
        json.dump({'property': pid, 'items': items}, f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=d)
    try:
        p = subprocess.run([PY, os.path.join(VERIF, 'check.py'), '--concrete', pin, pout],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        err = p.stderr.decode()[-500:]
    except subprocess.TimeoutExpired:
        err = 'timeout'
    res = []
    if os.path.exists(pout):
        with open(pout) as f:
            res = json.load(f)
    while len(res) < len(items):
        res.append({'status': 'error', 'why': err})
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isfile(p):
            os.unlink(p)
    try:
        import shutil
        shutil.rmtree(d)
    except OSError:
        pass
    return res


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def canon(x):
    """JSON form of an outcome; {'terms': [...]} is merged and sorted."""
    x = json.loads(json.dumps(x, default=str))
    return _canon(x)


def _canon(x):
    if isinstance(x, dict):
        if set(x) == {'terms'}:
            acc = {}
            for c, d, p in x['terms']:
                k = json.dumps([d, p])
                acc[k] = acc.get(k, 0) + c
            return sorted([c, json.loads(k)] for k, c in acc.items() if c != 0)
        return {k: _canon(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_canon(y) for y in x]
    return x


def jsonable(x):
    return canon(x)


# ---------------------------------------------------------------- main
def check(pid, tier, seed, jobs=None):
    t0 = time.time()
    jobs = jobs or max(1, min(8, os.cpu_count() or 1))
    out = lambda *a: print(*a, flush=True)
    imported = True
    try:
        loader.install_symbolic(getattr(load_harness(pid), 'REAL_MATPLOTLIB', False))
    except Exception as ex:
        imported = False
        why = repr(ex)
    mod = load_harness(pid)
    cfgs = mod.configs(tier)
    hard = float(os.environ.get('VERIF_BUDGET', 780 if tier == 'quick' else 5400))
    deadline1 = t0 + (hard * 0.5)
    deadline2 = t0 + hard * 0.85
    nsamp = max(2, min(30, 240 // max(1, len(cfgs)))) if tier == 'quick' else 60

    results = {}
    tasks = []
    for i, cfg in enumerate(cfgs):
        tasks.append((i, cfg, {'deadline': deadline1, 'seed': seed, 'index': i,
                               'samples': nsamp, 'concrete_inputs': False}))
    tasks.sort(key=lambda t: -t[1].get('weight', 1))
    violations, inconclusive, notes, known_hit = [], [], [], []
    findings = {f['id']: f for f in known_findings() if f.get('status') == 'finding' and f['property'] == pid}

    def confirm(cfg, res):
        r = run_concrete(pid, [{'cfg': cfg, 'values': res['values'], 'limit': cfg.get('path_limit', 60)}],
                         cfg.get('path_limit', 60) + 120)[0]
        return r

    def report(cfg, values, label, info, how):
        fid = cfg.get('finding')
        if fid and fid in findings and label == findings[fid]['label']:
            known_hit.append((fid, findings[fid]['what']))
            return
        rep = {'property': pid, 'cfg': cfg, 'values': values, 'label': label, 'info': info, 'found_by': how}
        h = hashlib.sha1(json.dumps(rep, sort_keys=True, default=str).encode()).hexdigest()[:10]
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (pid, h))
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1, default=str)
        violations.append((path, rep))
        out('counterexample [%s] %s: %s  inputs=%s %s' % (cfg.get('name'), label, how, json.dumps(values, default=str)[:300], info or ''))

    second = []
    if imported:
        for key, res in run_tasks(mod, tasks, jobs):
            cfg = cfgs[key]
            results[key] = res
            if res['status'] == 'violation':
                r = confirm(cfg, res)
                if r['status'] == 'violation':
                    report(cfg, res['values'], r['label'], r.get('info'), 'solver counterexample, reproduced on the real code')
                    if violations:
                        break
                else:
                    notes.append('%s: symbolic counterexample %r did not reproduce (%s); re-explored with concretised inputs: %s'
                                 % (cfg['name'], res['label'], r['status'], res.get('info')))
                    second.append(key)
            elif res['status'] == 'engine':
                notes.append('%s: symbolic run inconclusive (%s); re-explored with concretised inputs' % (cfg['name'], res['why']))
                second.append(key)
            elif not res['checked_paths'] and not cfg.get('may_be_empty'):
                inconclusive.append('%s: no path reaches an assertion (vacuous)' % cfg['name'])
    else:
        # the tree does not even import: the real code decides
        for i, cfg in enumerate(cfgs[:1]):
            r = run_concrete(pid, [{'cfg': cfg, 'values': {}}], 120)[0]
            if r['status'] == 'violation':
                report(cfg, {}, r['label'], None, 'import of the real code')
            else:
                inconclusive.append('import failed under the engine only: ' + why)

    # second pass: inputs enumerated by the solver
    if second and not violations:
        tasks2 = [(k, cfgs[k], {'deadline': deadline2, 'seed': seed, 'index': k, 'samples': nsamp,
                                'concrete_inputs': True}) for k in second]
        for key, res in run_tasks(mod, tasks2, jobs):
            cfg = cfgs[key]
            results[key] = res
            if res['status'] == 'violation':
                r = confirm(cfg, res)
                if r['status'] == 'violation':
                    report(cfg, res['values'], r['label'], r.get('info'), 'counterexample with concretised inputs, reproduced')
                    if violations:
                        break
                else:
                    inconclusive.append('%s: counterexample %r %r does not reproduce on the real code (%s)'
                                        % (cfg['name'], res['label'], res['values'], r))
            elif res['status'] == 'engine':
                inconclusive.append('%s: %s' % (cfg['name'], res['why']))
            elif not res['checked_paths'] and not cfg.get('may_be_empty'):
                inconclusive.append('%s: vacuous' % cfg['name'])

    # cross-validation: sampled path models replayed on the real code
    validated = mismatches = 0
    samples_out = []
    if not violations and imported:
        batches = [[] for _ in range(jobs)]
        n = 0
        for key in sorted(results):
            if cfgs[key].get('finding'):
                continue
            for s in results[key]['samples']:
                if s is not None:
                    batches[n % jobs].append((key, s))
                    n += 1
        from concurrent.futures import ThreadPoolExecutor

        def go(b):
            return run_concrete(pid, [{'cfg': cfgs[k], 'values': s['values']} for k, s in b], 300)
        with ThreadPoolExecutor(jobs) as ex:
            outs = list(ex.map(go, batches))
        for b, rs in zip(batches, outs):
            for (k, s), r in zip(b, rs):
                cfg = cfgs[k]
                if r['status'] == 'violation':
                    report(cfg, s['values'], r['label'], r.get('info'), 'path model replayed on the real code')
                elif r['status'] == 'ok':
                    if s['outcome'] is not None and canon(s['outcome']) != canon(r.get('outcome')):
                        mismatches += 1
                        notes.append('%s: predicted outcome differs from the real one for %s: %s vs %s'
                                     % (cfg['name'], s['values'], jsonable(s['outcome']), r.get('outcome')))
                        if results[k]['mode'] == 'symbolic':
                            inconclusive.append('%s: the engine mispredicts the real code' % cfg['name'])
                    else:
                        validated += 1
                        if len(samples_out) < 12 and r.get('outcome') is not None:
                            samples_out.append({'cfg': cfg['name'], 'inputs': s['values'], 'result': jsonable(r['outcome'])})
                else:
                    notes.append('%s: replay of %s: %s' % (cfg['name'], s['values'], r))
        if not samples_out:
            for k in sorted(results):
                for s in results[k]['samples'][:1]:
                    if s:
                        samples_out.append({'cfg': cfgs[k]['name'], 'inputs': s['values']})
                if len(samples_out) >= 8:
                    break

    # a misprediction is settled by exploring that configuration without proxies
    if inconclusive and not violations and any('mispredicts' in x for x in inconclusive):
        keys = sorted({k for k in results if any(x == '%s: the engine mispredicts the real code' % cfgs[k]['name'] for x in inconclusive)})
        inconclusive = [x for x in inconclusive if 'mispredicts' not in x]
        tasks3 = [(k, cfgs[k], {'deadline': deadline2, 'seed': seed, 'index': k, 'samples': 0,
                                'concrete_inputs': True}) for k in keys]
        for key, res in run_tasks(mod, tasks3, jobs):
            cfg = cfgs[key]
            results[key] = res
            if res['status'] == 'violation':
                r = confirm(cfg, res)
                if r['status'] == 'violation':
                    report(cfg, res['values'], r['label'], r.get('info'), 'counterexample with concretised inputs, reproduced')
                    if violations:
                        break
                else:
                    inconclusive.append('%s: does not reproduce' % cfg['name'])
            elif res['status'] == 'engine':
                inconclusive.append('%s: %s' % (cfg['name'], res['why']))

    if imported and not violations and not any(r['checked_paths'] for r in results.values()):
        inconclusive.append('no configuration reaches an assertion')
    # totals
    tot = core.Stats().as_dict()
    funcs = set()
    for r in results.values():
        for k, v in r['stats'].items():
            tot[k] += v
        funcs.update(r['functions'])
    wall = time.time() - t0
    per_cfg = [{'cfg': cfgs[k]['name'], 'bounds': cfgs[k].get('bounds', ''), 'mode': results[k]['mode'],
                'paths': results[k]['stats']['paths'], 'queries': results[k]['stats']['queries'],
                'wall_s': round(results[k].get('wall', 0), 2)} for k in sorted(results)]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'],
            'transitions': tot['branches'],
            'traces_validated_against_impl': validated,
            'samples': samples_out or [{'note': 'none'}],
            'explanation': 'states = feasible paths of the real code explored to their end; transitions = symbolic '
                           'branch decisions on them; traces_validated_against_impl = path models replayed on the '
                           'unpatched code with the predicted result',
            'functions_encoded': sorted(funcs),
            'configurations': per_cfg,
            'queries_discharged': tot['queries'],
            'solver_s': round(tot['solver_s'], 2),
            'assertions': tot['assertions'], 'assertions_discharged': tot['discharged'],
            'assertions_decided_by_path_condition_alone': tot['trivial'],
            'infeasible_paths_cut_by_preconditions': tot['infeasible'],
            'mispredicted_paths': mismatches,
            'notes': notes[:40], 'inconclusive': inconclusive[:40],
            'known_findings_seen': sorted({k for k, _ in known_hit}),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'bounds: ' + getattr(mod, 'BOUNDS', 'see configurations'),
            'trusted: CPython, sympy, z3, the proxy integers of /verif/symex (cross-validated by replay)'],
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    out('%s %s: %d configurations, %d paths, %d queries (%.1f s solver), %d/%d assertions, %d replays agree, %.1f s'
        % (pid, tier, len(results), tot['paths'], tot['queries'], tot['solver_s'], tot['discharged'],
           tot['assertions'], validated, wall))
    for n in notes[:10]:
        out('note: ' + n)
    for fid, what in sorted(set(known_hit)):
        out('KNOWN-FINDING: property=%s %s' % (pid, what))
    if violations:
        for path, rep in violations[:5]:
            out('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if inconclusive:
        for x in inconclusive[:10]:
            out('INCONCLUSIVE: ' + x)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    r = run_concrete(rep['property'], [{'cfg': rep['cfg'], 'values': rep['values'],
                                        'limit': rep['cfg'].get('path_limit', 60)}], 200)[0]
    print(json.dumps({'cfg': rep['cfg'], 'values': rep['values'], 'recorded': rep['label'], 'now': r}, indent=1))
    if r['status'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    return 0
