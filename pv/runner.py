"""check <property>: discharge the contracts of one property and write its evidence.

exit 0  every obligation discharged, or the undischarged ones lie outside the engine and the
        bounded run-time evaluation of the same contracts on the real code found no failure
exit 1  a contract is broken (a line VIOLATION property=<id> replay=<path>)"""
import sys, os, time, json, importlib, traceback, random, zlib, pickle, base64, io, contextlib, warnings, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
for p in (HERE, REPO):
    if p in sys.path: sys.path.remove(p)
sys.path[:0] = [HERE, REPO]
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path: sys.path.append(VT)
import numpy as np
warnings.simplefilter('ignore')
sys.setrecursionlimit(4000)

class Fail(Exception):
    """a run-time contract is broken on a concrete input"""
    def __init__(self, what, data=None, key=None):
        Exception.__init__(self, what); self.what = what; self.data = data; self.key = key

class Skip(Exception):
    """input outside the precondition"""

class RT(object):
    """run-time evaluation of a contract on the real code: fn(rng, k) raises Fail"""
    def __init__(self, name, fn, quick=20, thorough=None, functions=(), bound=''):
        self.name = name; self.fn = fn; self.quick = quick; self.thorough = thorough or quick * 8
        self.functions = functions; self.bound = bound

TRUSTED = [
    'the engine pv/ (symbolic interpreter of the Python/NumPy subset, normal form); cross-checked against CPython on this run',
    'models of numpy, scipy.sparse and builtin functions (pv/npmodel.py, pv/arrays.py): assumed contracts on dependencies, cross-checked on this run',
    'z3 for path feasibility and side conditions',
    'machine arithmetic treated as exact real/complex arithmetic; angles modulo 2 pi',
    'inverted quantities are assumed nonzero (results are claimed where the code is defined)',
]

class Timeout(Exception): pass

def known_findings(pid):
    out = {}
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line[len('known: property=%s ' % pid):]
                key, _, txt = rest.partition(' ')
                out[key.replace('key=', '')] = txt
    return out

def jsonable(x, d=0):
    if d > 6: return str(x)[:200]
    if isinstance(x, dict): return {str(k): jsonable(v, d + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v, d + 1) for v in x]
    if hasattr(x, 'toarray'): return jsonable(x.toarray(), d)
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'c': return {'re': x.real.tolist(), 'im': x.imag.tolist()}
        return x.tolist() if x.dtype != object else str(x)
    if isinstance(x, (np.floating, np.integer, np.bool_)): return x.item()
    if isinstance(x, complex): return {'re': x.real, 'im': x.imag}
    if isinstance(x, (int, float, str, bool)) or x is None: return x
    return str(x)[:300]

def write_replay(pid, n, info):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(p, 'w') as f: json.dump(jsonable(info), f, indent=1)
    return p

@contextlib.contextmanager
def quiet():
    """the code under test prints; keep our stdout clean (also at file-descriptor level is not needed)"""
    so, se = sys.stdout, sys.stderr
    sys.stdout = io.StringIO(); sys.stderr = io.StringIO()
    try: yield
    finally: sys.stdout, sys.stderr = so, se

def parallel(tasks, work, deadline, jobs):
    """run the tasks in forked processes, at most jobs at a time; None for a task that gave no result"""
    import select
    results = [None] * len(tasks)
    queue = list(range(len(tasks)))
    running = {}      # read fd -> [task number, pid, buffer, hard limit]
    sys.stdout.flush(); sys.stderr.flush()
    while queue or running:
        while queue and len(running) < jobs and time.time() < deadline + 5:
            i = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for fd in running: os.close(fd)
                    data = pickle.dumps(work(tasks[i]))
                    with os.fdopen(w, 'wb') as f: f.write(data)
                except BaseException:
                    if os.environ.get('PV_DEBUG'): traceback.print_exc()
                    code = 1
                os._exit(code)
            os.close(w)
            running[r] = [i, pid, [], deadline + 20]
        if not running: break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        now = time.time()
        for fd in list(running):
            i, pid, buf, lim = running[fd]
            if fd in ready:
                d = os.read(fd, 1 << 20)
                if d: buf.append(d); continue
            elif now <= lim: continue
            else:
                try: os.kill(pid, signal.SIGKILL)
                except ProcessLookupError: pass
            os.close(fd); del running[fd]
            os.waitpid(pid, 0)
            try: results[i] = pickle.loads(b''.join(buf)) if buf else None
            except Exception: results[i] = None
    return results

def on_alarm(sig, frm): raise Timeout()

def do_task(task, pid, mod, tier, seed, deadline):
    from . import verify, solve
    kind, i, label = task
    signal.signal(signal.SIGALRM, on_alarm)
    st0 = dict(solve.STATS)
    res = {'notes': []}
    left = lambda: int(max(1, deadline - time.time()))
    if kind == 'lemma':
        nm, th = mod.LEMMAS[i][:2]
        t1 = time.time()
        try:
            signal.alarm(left())
            r = th()
            o = verify.Obl('lemma ' + nm, 'proved' if r else 'failed', 'normal form', time.time() - t1)
        except Timeout: o = verify.Obl('lemma ' + nm, 'undecided', '', time.time() - t1, 'timeout')
        except Exception as e:
            if os.environ.get('PV_DEBUG'): traceback.print_exc()
            o = verify.Obl('lemma ' + nm, 'undecided', '', time.time() - t1, repr(e))
        finally: signal.alarm(0)
        res['obls'] = [o]
    elif kind == 'case':
        c = mod.CONTRACTS[i]
        rep = verify.Report()
        try:
            signal.alarm(left())
            with quiet():
                verify.verify_contract(c, rep, seed=seed, log=None, only=label)
        except Timeout:
            rep.undecided.append('%s/%s: time limit' % (c.name, label))
            rep.functions.append({'function': '%s.%s' % c.key, 'contract': c.name, 'proved': False})
        except Exception as e:
            if os.environ.get('PV_DEBUG'): traceback.print_exc()
            rep.undecided.append('%s/%s: engine error %r' % (c.name, label, e))
            rep.functions.append({'function': '%s.%s' % c.key, 'contract': c.name, 'proved': False})
        finally: signal.alarm(0)
        rep.violations = [jsonable(v) for v in rep.violations]
        for v in rep.violations: v.setdefault('case', c.name); v.setdefault('what', '')
        res['rep'] = rep
    else:
        rt = mod.RUNTIME[i]
        n = rt.quick if tier == 'quick' else rt.thorough
        done = 0; skipped = 0; distinct = set(); sample = None; violations = []
        t1 = time.time()
        for k in range(n):
            if time.time() > deadline: res['notes'].append('%s stopped by the time budget after %d evaluations' % (rt.name, done)); break
            s = zlib.crc32(('%s/%s/%d/%d' % (pid, rt.name, seed, k)).encode())
            rng = np.random.RandomState(s)
            try:
                signal.alarm(90)
                try:
                    with quiet(), np.errstate(all='ignore'):
                        r = rt.fn(rng, k)
                finally: signal.alarm(0)
                done += 1
                if r is not None:
                    distinct.add(repr(r))
                    if sample is None: sample = {'check': rt.name, 'k': k, 'case': jsonable(r)}
            except Skip: skipped += 1; continue
            except Timeout:
                res['notes'].append('%s: evaluation %d did not finish in 90 s' % (rt.name, k)); skipped += 1
                if skipped > 2: break
                continue
            except Fail as e:
                violations.append(('%s: %s' % (rt.name, e.what), jsonable({'property': pid, 'check': rt.name, 'k': k, 'seed': seed, 'what': e.what, 'data': e.data}), True, e.key or rt.name))
            except Exception as e:
                tb = traceback.format_exc()
                violations.append(('%s: %s: %s' % (rt.name, type(e).__name__, e), jsonable({'property': pid, 'check': rt.name, 'k': k, 'seed': seed, 'what': repr(e), 'traceback': tb}), True, rt.name))
            if len(violations) > 12: break
        res['violations'] = violations
        res['rt'] = {'check': rt.name, 'evaluations': done, 'skipped': skipped, 'distinct': len(distinct), 'functions': list(rt.functions), 'bound': rt.bound, 'wall_s': round(time.time() - t1, 3), 'sample': sample}
    res['stats'] = {k: solve.STATS[k] - st0[k] for k in st0}
    return res

def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    t0 = time.time()
    budget = float(os.environ.get('PV_BUDGET', '420' if tier == 'quick' else '800'))
    deadline = t0 + budget
    from . import verify, solve
    out = sys.stdout
    rep = verify.Report()
    violations = []      # (text, replay info, has input)
    notes = []
    lemma_obls = []
    try:
        with quiet():
            mod = importlib.import_module('specs.' + pid.lower())
    except Exception as e:
        # the package under test no longer imports, or a function under contract disappeared
        tb = traceback.format_exc()
        p = write_replay(pid, 0, {'property': pid, 'what': 'importing the functions under contract fails', 'traceback': tb})
        print('import failed: %r' % (e,))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        write_evidence(pid, tier, seed, mod=None, rep=rep, lemma_obls=[], rts=[], t0=t0, nviol=1, notes=[tb])
        return 1
    only = None
    for a in argv:
        if a.startswith('--only='): only = a[7:]
    # ---- deductive part -------------------------------------------------------
    lemmas = getattr(mod, 'LEMMAS', [])
    tasks = []
    if not only: tasks += [('lemma', i, None) for i in range(len(lemmas))]
    contracts = getattr(mod, 'CONTRACTS', [])
    for i, c in enumerate(contracts):
        if only and c.name != only: continue
        tasks += [('case', i, label) for label in c.cases]
    runtime = getattr(mod, 'RUNTIME', [])
    for i, rt in enumerate(runtime):
        if only and rt.name != only: continue
        tasks.append(('rt', i, None))
    def work(task): return do_task(task, pid, mod, tier, seed, deadline)
    results = parallel(tasks, work, deadline, int(os.environ.get('PV_JOBS', '0') or 0) or os.cpu_count() or 4)
    fun = {}
    rts = []
    for task, r in zip(tasks, results):
        if r is None:      # the worker was ended or died
            if task[0] == 'lemma': lemma_obls.append(verify.Obl('lemma ' + lemmas[task[1]][0], 'undecided', '', 0, 'time limit'))
            elif task[0] == 'case':
                c = contracts[task[1]]
                rep.undecided.append('%s/%s: time limit' % (c.name, task[2]))
                fun.setdefault(task[1], []).append({'function': '%s.%s' % c.key, 'contract': c.name, 'proved': False})
            else: notes.append('%s: time limit' % runtime[task[1]].name)
            continue
        for k, v in r['stats'].items(): solve.STATS[k] += v
        notes.extend(r['notes'])
        if task[0] == 'lemma': lemma_obls.extend(r['obls'])
        elif task[0] == 'case':
            q = r['rep']
            rep.obls += q.obls; rep.undecided += q.undecided; rep.violations += q.violations; rep.cross += q.cross
            rep.interpreted |= q.interpreted; rep.contracts_used |= q.contracts_used; rep.notes += q.notes
            fun.setdefault(task[1], []).extend(q.functions)
        else:
            rts.append(r['rt']); violations.extend(r['violations'])
    for i, fs in fun.items():
        rep.functions.append({'function': fs[0]['function'], 'contract': fs[0]['contract'], 'cases': len(fs), 'proved': all(f['proved'] for f in fs), 'wall_s': round(sum(f.get('wall_s', 0) for f in fs), 3)})
    violations[:0] = [('contract %s: %s' % (v['case'], v['what']), v, True, None) for v in rep.violations]
    # ---- verdict --------------------------------------------------------------------
    kf = known_findings(pid)
    real = []
    seen_known = set()
    for txt, info, inp, key in violations:
        if key is not None and key in kf:
            seen_known.add(key)
        else: real.append((txt, info, inp))
    failed = [o for o in rep.obls + lemma_obls if o.status == 'failed']
    if failed and not real and not seen_known:
        o = failed[0]
        real.append(('obligation %s is not discharged any more (no failing input found)' % o.name,
                     {'property': pid, 'failed_obligations': [f.name + ' ' + f.detail for f in failed], 'what': 'normal form of actual - expected is not zero'}, False))
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
    und = [o for o in rep.obls + lemma_obls if o.status == 'undecided']
    allo = rep.obls + lemma_obls
    print('%s: %d obligations, %d discharged, %d failed, %d undecided; %d contracts; run-time evaluations %d; %.1fs' % (
        pid, len(allo), sum(o.status == 'proved' for o in allo), len(failed), len(und) + len([u for u in rep.undecided if 'outside' in u or 'engine error' in u or 'time limit' in u]),
        len(rep.functions), sum(r['evaluations'] for r in rts) + rep.cross, time.time() - t0))
    for u in rep.undecided[:20]: print('  not discharged: %s' % u)
    for n in rep.notes[:10]: print('  note: %s' % n)
    for n in notes[:10]: print('  note: %s' % n)
    if verbose:
        for o in allo: print('   %-9s %-12s %.2fs %s %s' % (o.status, o.backend, o.time, o.name, o.detail))
        for r in rts: print('   ', r)
    write_evidence(pid, tier, seed, mod, rep, lemma_obls, rts, t0, len(real), notes)
    if real:
        for n, (txt, info, inp) in enumerate(real[:5]):
            info = dict(info); info['replay_cmd'] = '%s/check %s' % (HERE, pid)
            p = write_replay(pid, n, info)
            print('  violated: %s' % txt[:600])
            print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if inp else ' no-failing-input-found'))
        return 1
    return 0

def write_evidence(pid, tier, seed, mod, rep, lemma_obls, rts, t0, nviol, notes):
    from . import solve
    allo = rep.obls + lemma_obls
    disc = sum(o.status == 'proved' for o in allo)
    hard = [u for u in rep.undecided if 'outside the engine' in u or 'engine error' in u or 'time limit' in u]
    declared = getattr(mod, 'LEVEL', 'proof') if mod else 'other'
    evals = sum(r['evaluations'] for r in rts) + rep.cross
    level = declared
    if level == 'proof' and (not allo or disc < len(allo) or hard): level = 'other'
    by_backend = {}
    for o in allo:
        if o.status == 'proved': by_backend[o.backend or 'trivial'] = by_backend.get(o.backend or 'trivial', 0) + 1
    cov = {
        'obligations': len(allo) + len(hard), 'discharged': disc, 'discharged_by': by_backend,
        'checker_cmd': '/verif/check %s' % pid,
        'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', []) if mod else []),
        'functions_under_contract': rep.functions,
        'functions_interpreted': sorted('.'.join(x) for x in rep.interpreted),
        'callee_contracts_used': sorted('.'.join(x) for x in rep.contracts_used),
        'not_discharged': rep.undecided,
        'engine_crosschecks_on_cpython': rep.cross,
        'bounded_runtime_checks': rts,
        'evaluations': evals,
        'distinct_nontrivial': sum(r['distinct'] for r in rts),
        'rule': 'random networks/inputs from the stated generators; a case counts as distinct by the token each check returns',
        'samples': [r['sample'] for r in rts if r['sample']][:5] or [{'obligations': [o.name for o in allo[:5]]}],
        'solver': {'z3_queries': solve.STATS['z3_queries'], 'z3_time_s': round(solve.STATS['z3_time'], 3), 'normal_form_checks': solve.STATS['poly_checks'], 'normal_form_time_s': round(solve.STATS['poly_time'], 3)},
        'explanation': (getattr(mod, 'EXPLANATION', '') if mod else '') or 'contracts discharged for all inputs; the run-time evaluation of the same contracts on the real code is bounded and not counted as proof',
        'slowest_obligations': [[o.name, round(o.time, 2)] for o in sorted(allo, key=lambda o: -o.time)[:3]],
        'notes': notes + rep.notes,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 3),
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', []) if mod else []), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(jsonable2(ev), f, indent=1)

def jsonable2(x):
    if isinstance(x, dict): return {str(k): jsonable2(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)): return [jsonable2(v) for v in x]
    if isinstance(x, (np.floating, np.integer, np.bool_)): return x.item()
    if isinstance(x, np.ndarray): return x.tolist()
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))): return str(x)
    if isinstance(x, (int, float, str, bool)) or x is None: return x
    return str(x)

if __name__ == '__main__':
    from pv.runner import main as m      # the importable module, so that Fail and Skip are one class
    sys.exit(m())
