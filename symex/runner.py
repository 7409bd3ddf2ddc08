"""Runs one property's harness: parallel symbolic exploration, replay of every
counterexample on the plain code, trace validation, evidence."""
import gc
import json
import logging
import multiprocessing as mp
import os
import queue
import random
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
REPLAY_PY = '/opt/venv/bin/python'
SITE = '/opt/venv/lib/python3.12/site-packages'
NPROC = int(os.environ.get('SX_PROCS', str(min(8, os.cpu_count() or 1))))
MAXVIOL = 3          # candidates per (case, label) a worker sends


def load(name):
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    sys.path.append(SITE)
    logging.disable(logging.CRITICAL)
    from . import instr, intrinsics
    intrinsics.register_optional()
    instr.install({'pdfmajor': REPO, 'harness': VERIF})
    import importlib
    return importlib.import_module('harness.' + name)


def nice_model(C, v, base_model):
    """a counterexample with small rational reals, when there is one"""
    import z3
    cond = getattr(v, 'cond', None)
    reals = [i[2][0].e for i in C.inputs if i[1] == 'real']
    if cond is None or not reals:
        return base_model
    for den in (1, 2, None):
        C.solver.push()
        try:
            C.solver.set('timeout', 3000)
            C.solver.add(z3.Not(cond))
            for r in reals:
                if den is not None:
                    C.solver.add(z3.IsInt(r * den))
                C.solver.add(r <= 1000, r >= -1000)
            if C.solver.check() == z3.sat:
                return C.solver.model()
        finally:
            C.solver.pop()
            C.solver.set('timeout', C.QUERY_MS)
    return base_model


def short_reals(C, m):
    """a model of the path whose reals are floats with few bits, if there is one"""
    import z3
    reals = [i[2][0].e for i in C.inputs if i[1] == 'real']
    if not reals:
        return m

    def short(v):
        if not z3.is_rational_value(v):
            return False
        n, d = v.numerator_as_long(), v.denominator_as_long()
        return d <= 1024 and d & (d - 1) == 0 and abs(n) < 1 << 30
    if all(short(m.eval(r, model_completion=True)) for r in reals):
        return m
    C.solver.push()
    try:
        C.solver.set('timeout', 1000)
        for r in reals:
            C.solver.add(z3.IsInt(r * 4), r <= 1000, r >= -1000)
        if C.solver.check() == z3.sat:
            return C.solver.model()
    finally:
        C.solver.pop()
        C.solver.set('timeout', C.QUERY_MS)
    return None


def input_record(C, m):
    from .hsym import concretize, encode
    out = {}
    for name, kind, its in C.inputs:
        if kind == 'bytes':
            v = bytes(concretize(i, m) for i in its)
        elif kind == 'text':
            v = ''.join(chr(concretize(i, m)) for i in its)
        elif kind == 'bool':
            v = concretize(its[0], m)
        else:
            v = concretize(its[0], m) if kind != 'choice' else its[0]
        out[name] = encode(v)
    return out


class Worker:
    def __init__(self, wid, cases, snap, tasks, results, pending, idle, stop, deadline, tier):
        self.__dict__.update(locals())
        self.rng = random.Random(wid)

    def main(self):
        from . import core, intrinsics as I, hsym
        gc.disable()
        self.h = hsym.HSym()
        last = None
        try:
            while True:
                with self.idle.get_lock():
                    self.idle.value += 1
                t = self.tasks.get()
                with self.idle.get_lock():
                    self.idle.value -= 1
                if t is None:
                    break
                if not self.stop.value:
                    r = self.explore(t)
                else:
                    r = {'case': t[0], 'stats': {}, 'stopped': True}
                r['kind'] = 'done'
                self.results.put(r)
        except BaseException:
            self.results.put({'kind': 'crash', 'what': traceback.format_exc()})
        os._exit(0) if False else None

    def explore(self, task):
        from . import core, intrinsics as I, hsym
        import z3
        ci, prefix = task
        case = self.cases[ci]
        C = core.reset()
        C.forced = prefix
        C.deadline = self.deadline
        C.step_limit = case.steps
        h = self.h
        h.reached = {}
        I.FUNCS.clear()
        paths = ok_paths = aborted = unsup = 0
        samples = []
        viol_count = {}
        gcn = 0
        budget = False
        while True:
            if self.stop.value:
                break
            self.snap.restore()
            I.VFS.clear()
            I.VFS_MADE.clear()
            C.begin()
            h.begin()
            cand = None
            obs_ok = False
            try:
                case.fn(h, **case.params)
                obs_ok = True
                ok_paths += 1
            except core.PathAbort:
                aborted += 1
            except core.Violation as e:
                cand = (e.label, e.detail, e, False)
            except core.Unsupported as e:
                unsup += 1
                C.note('unsupported: %s' % (' '.join(map(str, e.args)))[:160])
            except core.StepLimit:
                cand = ('step limit', 'more than %d loop iterations' % case.steps, None, True)
            except core.Budget:
                budget = True
            except core.Control as e:
                self.results.put({'kind': 'engine', 'case': ci, 'what': repr(e)[:500]})
            except RecursionError as e:
                cand = ('recursion', 'RecursionError', None, False)
            except (SystemExit, KeyboardInterrupt):
                raise
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                eng = [f for f in tb if '/symex/' in f.filename]
                where = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb if '/symex/' not in f.filename][-2:]
                if isinstance(e, z3.Z3Exception) or type(e).__name__ == 'ArgumentError':
                    unsup += 1
                    C.note('engine: %s at %s' % (repr(e)[:100], tb[-1]))
                else:
                    cand = ('exception %s' % type(e).__name__,
                            '%s at %s' % (str(e)[:200], ' < '.join(reversed(where))), None, False)
            paths += 1
            if cand is not None:
                label, detail, v, hang = cand
                n = viol_count.get(label, 0)
                viol_count[label] = n + 1
                if n < MAXVIOL:
                    try:
                        m = getattr(v, 'model', None) or C.cur_model()
                        if v is not None:
                            m = nice_model(C, v, m)
                        self.results.put({'kind': 'cand', 'case': ci, 'label': label, 'detail': detail,
                                          'hang': hang, 'inputs': input_record(C, m)})
                    except core.Control:
                        pass
            elif obs_ok and self.want_sample(ok_paths, len(samples)):
                try:
                    m = short_reals(C, C.cur_model())
                    if m is not None:
                        samples.append({'inputs': input_record(C, m),
                                        'obs': [[n, hsym.encode(hsym.concretize(v, m))] for n, v in h.obs]})
                except core.Control:
                    pass
            C.end()
            if budget:
                C.note('time budget exhausted')
                break
            gcn += 1
            if gcn % 256 == 0:
                gc.collect()
            if self.idle.value > 0 and paths >= 1:
                d = C.donate()
                if d is not None:
                    with self.pending.get_lock():
                        self.pending.value += 1
                    self.tasks.put((ci, d))
            if not C.next_path():
                break
        if self.stop.value:
            C.note('stopped')
        st = dict(C.stats)
        st.update(paths=paths, ok_paths=ok_paths, aborted=aborted, unsupported=unsup)
        if len(samples) > 6:
            samples = self.rng.sample(samples, 6)
        return {'case': ci, 'stats': st, 'inconclusive': dict(C.inconclusive), 'reached': dict(h.reached),
                'samples': samples, 'funcs': dict(I.FUNCS), 'open': budget}

    def want_sample(self, n, have):
        if have >= 12:
            return False
        return n <= 2 or (n & (n - 1)) == 0 or self.rng.random() < 0.02


def replay(name, jobs, timeout=600):
    env = dict(os.environ)
    env['SX_REPO'] = REPO
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run([REPLAY_PY, os.path.join(VERIF, 'symex', 'replay.py'), name],
                       input=json.dumps(jobs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=env, timeout=timeout, cwd='/tmp')
    if p.returncode != 0 or not p.stdout:
        raise RuntimeError('replay failed: rc=%s %s' % (p.returncode, p.stderr.decode()[-1500:]))
    return json.loads(p.stdout)


def read_known(pid):
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                # known: property=C01 case=<case> label=<label> :: description
                head, _, desc = line.partition(' :: ')
                f = dict(x.split('=', 1) for x in head.split()[1:] if '=' in x)
                known[(f.get('case'), f.get('label', '').replace('_', ' '))] = desc
    return known


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-1', dest='one', action='store_true', help='single process, for debugging')
    a = ap.parse_args(argv)
    name = a.prop.lower()
    pid = a.prop.upper()
    t0 = time.time()
    sys.setrecursionlimit(12000)
    if a.replay:
        job = json.load(open(a.replay))
        r = replay(name, [job])[0]
        print(json.dumps(r))
        return 1 if r['status'] == 'violation' else 0
    mod = load(name)
    cases = mod.cases(a.tier)
    if a.case:
        cases = [c for c in cases if c.name.startswith(a.case)]
    if a.list:
        for c in cases:
            print(c.name, c.params, c.bounds)
        return 0
    from . import instr
    snap = instr.Snapshot(['pdfmajor', 'harness'])
    gc.collect()
    gc.freeze()
    budget = a.budget or {'quick': 420, 'thorough': 3300}[a.tier]
    deadline = t0 + budget
    tasks, results = mp.SimpleQueue(), mp.Queue()
    pending, idle = mp.Value('i', len(cases)), mp.Value('i', 0)
    stop = mp.Value('b', 0)
    for i in range(len(cases)):
        pass
    procs = []
    ctx = mp.get_context('fork')

    def start(w):
        threading.stack_size(512 * 1024 * 1024)
        t = threading.Thread(target=w.main)
        t.start()
        t.join()
    for w in range(NPROC if not a.one else 1):
        wk = Worker(w, cases, snap, tasks, results, pending, idle, stop, deadline, a.tier)
        p = ctx.Process(target=start, args=(wk,), daemon=True)
        p.start()
        procs.append(p)
    for i in range(len(cases)):
        tasks.put((i, []))

    agg = [dict(stats={}, inconclusive={}, reached={}, samples=[], funcs={}, open=False) for _ in cases]
    left = len(cases)
    violations, mismatches, engine = [], [], []
    seen_viol = {}
    known = read_known(pid)
    known_hit = {}
    done_tasks = 0
    crashed = False
    while True:
        with pending.get_lock():
            if done_tasks >= pending.value:
                break
        try:
            r = results.get(timeout=5)
        except queue.Empty:
            if time.time() > deadline + 120:
                engine.append('workers did not finish')
                break
            if any(not p.is_alive() for p in procs):
                engine.append('a worker process ended')
                crashed = True
                break
            continue
        k = r['kind']
        if k == 'done':
            done_tasks += 1
            g = agg[r['case']]
            for n, v in r['stats'].items():
                if n == 'maxdepth':
                    g['stats'][n] = max(g['stats'].get(n, 0), v)
                else:
                    g['stats'][n] = g['stats'].get(n, 0) + v
            for f in ('inconclusive', 'reached', 'funcs'):
                for n, v in r.get(f, {}).items():
                    g[f][n] = g[f].get(n, 0) + v
            g['samples'] += r.get('samples', [])
            g['open'] = g['open'] or r.get('open') or r.get('stopped', False)
        elif k == 'cand':
            c = cases[r['case']]
            key = (c.name, r['label'])
            if seen_viol.get(key, 0) >= 4 or violations:
                continue
            seen_viol[key] = seen_viol.get(key, 0) + 1
            job = {'case': c.name, 'tier': a.tier, 'inputs': r['inputs'], 'timeout': 30 if r['hang'] else 60}
            try:
                rr = replay(name, [job])[0]
            except Exception as e:
                engine.append('replay: %s' % e)
                continue
            if rr['status'] == 'violation' and key in known:
                known_hit[key] = known_hit.get(key, 0) + 1
                continue
            if rr['status'] == 'violation':
                job.update(property=pid, label=r['label'], detail=r['detail'], result=rr)
                violations.append(job)
                stop.value = 1
            elif r['hang']:
                g = agg[r['case']]
                g['inconclusive']['step limit reached, real run ends'] = \
                    g['inconclusive'].get('step limit reached, real run ends', 0) + 1
            else:
                mismatches.append({'case': c.name, 'label': r['label'], 'detail': r['detail'],
                                   'inputs': r['inputs'], 'real': rr})
        elif k == 'engine':
            engine.append('%s: %s' % (cases[r['case']].name, r['what']))
        elif k == 'crash':
            engine.append(r['what'])
            crashed = True
            break
    for _ in procs:
        try:
            tasks.put(None)
        except Exception:
            pass
    for p in procs:
        p.join(0.2)
    for p in procs:
        if p.is_alive():
            p.terminate()

    # trace validation: sampled path models re-run on the plain code
    jobs = []
    validated = 0
    if not violations and not crashed:
        rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
        for c, g in zip(cases, agg):
            ss = g['samples']
            n = 8 if len(cases) < 12 else 3
            if len(ss) > n:
                ss = rng.sample(ss, n)
            for s in ss:
                jobs.append(dict(s, case=c.name, tier=a.tier, timeout=60))
        if jobs:
            try:
                for j, rr in zip(jobs, replay(name, jobs)):
                    if rr['status'] == 'ok':
                        validated += 1
                    elif rr['status'] == 'violation':
                        # a model of the solver fails on the real code although the
                        # symbolic run passed: a violation, and a fault of the engine
                        mismatches.append({'case': j['case'], 'label': 'validation', 'inputs': j['inputs'], 'real': rr})
                        if (j['case'], rr['what']) not in known and not violations:
                            violations.append(dict(j, property=pid, label='validation', detail=rr['what'], result=rr))
                    else:
                        mismatches.append({'case': j['case'], 'label': 'validation', 'inputs': j['inputs'], 'real': rr})
            except Exception as e:
                engine.append('replay: %s' % e)
    unreached = []
    for c, g in zip(cases, agg):
        for lab in c.reach:
            if not g['reached'].get(lab) and not violations and not g['open']:
                unreached.append('%s: %s' % (c.name, lab))
        if not g['stats'].get('ok_paths') and not violations and not g['open'] and not c.reach \
                and not any(k2[0] == c.name for k2 in known_hit):
            unreached.append('%s: no path completed' % c.name)

    wall = time.time() - t0
    tot = {}
    for g in agg:
        for n, v in g['stats'].items():
            tot[n] = max(tot.get(n, 0), v) if n == 'maxdepth' else tot.get(n, 0) + v
    funcs = {}
    for g in agg:
        for n, v in g['funcs'].items():
            if n.startswith('pdfmajor'):
                funcs[n] = funcs.get(n, 0) + v
    inc = {}
    for c, g in zip(cases, agg):
        for n, v in g['inconclusive'].items():
            inc.setdefault(c.name, {})[n] = v
    write_evidence(pid, a.tier, cases, agg, tot, funcs, inc, violations, mismatches, engine, unreached,
                   validated, len(jobs), wall, mod, known_hit)
    if a.v:
        for c, g in zip(cases, agg):
            s = g['stats']
            print('%-34s paths %6d ok %6d queries %6d solver %6.1fs %s %s' % (
                c.name, s.get('paths', 0), s.get('ok_paths', 0), s.get('queries', 0), s.get('solver_s', 0),
                g['reached'] or '', g['inconclusive'] or ''))
    for key, n in sorted(known_hit.items(), key=repr):
        print('KNOWN-FINDING: property=%s case=%s %s: %s' % (pid, key[0], key[1], known[key]))
    if violations:
        v = violations[0]
        path = os.path.join(VERIF, 'evidence', '%s.replay.json' % pid)
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('counterexample in %s: %s' % (v['case'], v['result']['what'][:400]))
        print('  inputs: %s' % json.dumps(v['inputs'])[:600])
        for w in v['result'].get('where', []):
            print('   ', w)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s %s: %d cases, %d paths (%d complete), %d queries, %d checks (%d discharged), solver %.1fs, wall %.1fs, '
          '%d/%d traces validated' % (pid, a.tier, len(cases), tot.get('paths', 0), tot.get('ok_paths', 0),
                                      tot.get('queries', 0), tot.get('checks', 0), tot.get('discharged', 0),
                                      tot.get('solver_s', 0), wall, validated, len(jobs)))
    for c, d in inc.items():
        print('INCONCLUSIVE %s: %s' % (c, d))
    for m in mismatches[:5]:
        print('MISMATCH (symbolic and real run disagree) %s' % json.dumps(m)[:1500])
    for e in engine[:5]:
        print('ENGINE %s' % e)
    for u in unreached:
        print('UNREACHED %s' % u)
    if mismatches or engine or unreached:
        # on a tree the engine was not written for: these parts stay undecided
        if os.environ.get('SX_STRICT') or crashed or not tot.get('ok_paths'):
            return 3
        print('INCONCLUSIVE property=%s: %d mismatches, %d engine faults, %d unreached points; no violation found' % (
            pid, len(mismatches), len(engine), len(unreached)))
        return 0
    if inc and os.environ.get('SX_STRICT'):
        return 3
    print('OK property=%s held on everything explored' % pid)
    return 0


def write_evidence(pid, tier, cases, agg, tot, funcs, inc, violations, mismatches, engine, unreached,
                   validated, njobs, wall, mod, known_hit):
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('branches', 0),
            'traces_validated_against_impl': validated,
            'traces_replayed': njobs,
            'paths': tot.get('paths', 0),
            'paths_complete': tot.get('ok_paths', 0),
            'paths_infeasible_assumption': tot.get('aborted', 0),
            'paths_unsupported': tot.get('unsupported', 0),
            'branch_decisions': tot.get('branches', 0),
            'branches_implied_by_solver': tot.get('implied', 0),
            'queries': tot.get('queries', 0),
            'queries_sat': tot.get('sat', 0), 'queries_unsat': tot.get('unsat', 0),
            'queries_unknown': tot.get('unknown', 0),
            'assertions_checked': tot.get('checks', 0), 'assertions_discharged': tot.get('discharged', 0),
            'solver_time_s': round(tot.get('solver_s', 0), 2),
            'functions_encoded': sorted(funcs),
            'functions_encoded_count': len(funcs),
            'cases': [{'name': c.name, 'bounds': c.bounds, 'paths': g['stats'].get('paths', 0),
                       'queries': g['stats'].get('queries', 0), 'checks': g['stats'].get('checks', 0),
                       'reached': g['reached'], 'complete': not g['open'] and not g['inconclusive']}
                      for c, g in zip(cases, agg)],
            'inconclusive': inc,
            'engine_faults': len(engine) + len(mismatches) + len(unreached),
            'samples': [{'case': c.name, 'inputs': s['inputs']} for c, g in zip(cases, agg) for s in g['samples'][:2]][:12],
            'explanation': 'states = completed or abandoned execution paths of the instrumented real code; '
                           'transitions = decisions put to the solver',
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'bounds of each case as listed under coverage.cases; nothing beyond them is claimed',
            'the engine\'s models of built-in and C library functions (DESIGN.md) agree with CPython; '
            'sampled path models are re-run on the unmodified code and compared'],
        'wall_s': round(wall, 2),
        'violations': [{'case': v['case'], 'label': v['label'], 'what': v['result']['what'][:500]} for v in violations],
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1)
