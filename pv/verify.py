"""Contracts, obligations, and their discharge.

A FunContract states, for one real function of /repo, its precondition (the
symbolic arguments `setup` builds, of any size), its postcondition (the result
equals `spec(args)`, entry by entry, shape included) and its frame (arguments
not named in `modifies` are unchanged).  The same `spec` serves as the contract
at call sites, so a caller is checked against it and not against the body."""
import sys, time, random, zlib, math, traceback, inspect, os
import numpy as np
import scipy.sparse as sp
from . import terms as t
from . import arrays as A
from . import solve
from .terms import T, Unsupported
from .arrays import SArray, Size, ShapeError, dimaxis, fixaxis
from .interp import Interp, PyRaise, Infeasible

# ---- symbolic inputs ---------------------------------------------------------
class Sym(object):
    """names, kinds and samplers of the symbolic inputs of one verification case"""
    def __init__(self):
        self.samplers = {}
        self.ifs = {}
        self.dims = {}
        self.pre = []
        self.notes = []
    def dim(self, name, lo=1, hi=4):
        self.dims[name] = (lo, hi)
        return dimaxis(name)
    def nonempty(self, ax):
        v = t.fresh(ax.dim)
        self.pre.append(t.mkex(v, t.TRUE))
    def index(self, name, args, dim, sampler=None):
        self.ifs[name] = (dim, sampler)
        return t.ifun(name, args, dim)
    def inp(self, name, ix, kind='r', sampler=None):
        if name not in self.samplers: self.samplers[name] = (kind, sampler)
        return t.inp(name, ix, kind)
    def array(self, name, axes, kind='r', sampler=None, storage='dense'):
        self.samplers[name] = (kind, sampler)
        k = {'c': 'c'}.get(kind, 'f')
        axes = [a if isinstance(a, A.Axis) else dimaxis(a) for a in axes]
        def fn(*ix):
            nm = name; jx = []
            for x in ix:
                if isinstance(x, tuple): nm += '.%d' % x[0]; x = x[1]
                if isinstance(x, int): nm += '[%d]' % x
                else: jx.append(x)
            if nm not in self.samplers: self.samplers[nm] = (kind, sampler)
            return t.inp(nm, tuple(jx), kind)
        return SArray(axes, fn, k, storage)
    def scalar(self, name, kind='r', sampler=None):
        self.samplers[name] = (kind, sampler)
        return t.inp(name, (), kind)
    def table(self, name, ax, ncols, cols):
        """matrix with rows over ax; cols: column -> 'r' | 'p' | ('enum', values) | ('index', dim) | 'rownum' | ('const', x) | (kind, sampler)"""
        def fn(i, j):
            c = cols.get(j, 'r')
            nm = '%s.%d' % (name, j)
            if isinstance(i, tuple): nm = '%s.%d.%d' % (name, i[0], j); i = i[1]
            jx = (i,) if not isinstance(i, int) else ()
            if isinstance(i, int): nm += '[%d]' % i
            if c == 'rownum': return t.mk('idx', A.position(ax, i))
            if callable(c): return c(i)
            if isinstance(c, tuple) and c[0] == 'index':
                if nm not in self.ifs: self.ifs[nm] = (c[1], c[2] if len(c) > 2 else None)
                return t.mk('idx', t.ifun(nm, jx, c[1]))
            if isinstance(c, tuple) and c[0] == 'enum':
                kind = 'e(%s)' % ','.join(map(str, c[1]))
                if nm not in self.samplers: self.samplers[nm] = (kind, c[2] if len(c) > 2 else None)
                return t.inp(nm, jx, kind)
            if isinstance(c, tuple) and c[0] == 'const': return t.lift(c[1])
            kind, s = c if isinstance(c, tuple) else (c, None)
            if nm not in self.samplers: self.samplers[nm] = (kind, s)
            return t.inp(nm, jx, kind)
        return SArray([ax, fixaxis(ncols)], fn, 'f')

def default_sample(rng, kind):
    if kind == 'p': return rng.uniform(0.6, 1.6)
    if kind == 'c': return complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
    if kind.startswith('e('):
        return float(rng.choice(kind[2:-1].split(',')))
    return rng.uniform(-2, 2)

class _Lazy(object):
    def __init__(self, env): self.env = env
class RandEnv(t.Env):
    def __init__(self, sym, seed, sizes=None):
        self.sym = sym; self.seed = seed
        r = random.Random(seed)
        self.sizes = {}
        for d, (lo, hi) in sorted(sym.dims.items()): self.sizes[d] = r.randint(lo, hi)
        if sizes: self.sizes.update(sizes)
        self.memo = {}; self.vals = {}
        env = self
        class Inp(dict):
            def __missing__(d, name):
                def f(*ix):
                    k = (name,) + ix
                    if k not in env.vals:
                        rng = random.Random(zlib.crc32(repr((env.seed, k)).encode()))
                        kind, s = env.sym.samplers[name]
                        env.vals[k] = s(rng, env, *ix) if s else default_sample(rng, kind)
                    return env.vals[k]
                d[name] = f
                return f
        class Ifs(dict):
            def get(d, name, default=None):
                if name not in env.sym.ifs: return None
                def f(*ix):
                    k = ('if', name) + ix
                    if k not in env.vals:
                        rng = random.Random(zlib.crc32(repr((env.seed, k)).encode()))
                        dim, s = env.sym.ifs[name]
                        env.vals[k] = s(rng, env, *ix) if s else rng.randrange(max(1, env.sizes[dim]))
                    return env.vals[k]
                return f
        self.inputs = Inp(); self.ifuns = Ifs(); self.preds = {}
        self.fns = FNS

FNS = {}

# ---- concretisation -------------------------------------------------------------
def concretise(x, env):
    """numpy value of a symbolic value under a valuation"""
    if isinstance(x, SArray):
        axs = [A.ev_axis(ax, env) for ax in x.axes]
        dt = {'b': bool, 'i': float, 'f': float, 'c': complex}[x.kind]
        out = np.zeros([len(a) for a in axs], dtype=dt)
        it = np.ndindex(*out.shape)
        f = x.fn
        for pos in it:
            e = f(*[axs[d][p][0] for d, p in enumerate(pos)])
            if isinstance(e, T): v = t.ev(e, env, {})
            else: v = e
            if dt is float and isinstance(v, complex): v = v.real if abs(v.imag) < 1e-9 * (1 + abs(v)) else math.nan
            if isinstance(v, complex) and dt is complex or not isinstance(v, complex): out[pos] = v
        if x.kind == 'i': out = out.astype(int)
        if x.storage == 'sparse': return sp.csr_matrix(out)
        if x.storage == 'matrix': return np.asmatrix(out)
        return out
    if isinstance(x, T):
        v = t.ev(x, env, {})
        return v
    if isinstance(x, Size): return A.ev_size(x, env)
    if isinstance(x, tuple): return tuple(concretise(y, env) for y in x)
    if isinstance(x, list): return [concretise(y, env) for y in x]
    if isinstance(x, dict): return {k: concretise(v, env) for k, v in x.items()}
    return x

def dense(x):
    if hasattr(x, 'toarray'): x = x.toarray()
    return np.asarray(x)

def num_diff(a, b, tol=1e-7):
    """None if equal up to tolerance, else a description"""
    if isinstance(b, (tuple, list)):
        if not isinstance(a, (tuple, list, np.ndarray)) or len(a) != len(b): return 'length %s vs %s' % (getattr(a, '__len__', lambda: '?')(), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = num_diff(x, y, tol)
            if d: return '[%d] %s' % (i, d)
        return None
    if isinstance(b, dict):
        for k in b:
            if k not in a: return 'missing %r' % k
            d = num_diff(a[k], b[k], tol)
            if d: return '[%r] %s' % (k, d)
        return None
    if b is None or isinstance(b, str): return None if (a is None if b is None else a == b) else '%r vs %r' % (a, b)
    x = dense(a); y = dense(b)
    if x.dtype == object or y.dtype == object: return 'object %r vs %r' % (a, b)
    if x.shape != y.shape:
        if x.size == y.size == 0 and False: return None
        return 'shape %s, expected %s' % (x.shape, y.shape)
    if x.size == 0: return None
    x = x.astype(complex); y = y.astype(complex)
    ok = (np.abs(x - y) <= tol * (1 + np.abs(y))) | (x == y) | (np.isnan(x) & np.isnan(y))
    if np.all(ok): return None
    k = np.unravel_index(np.argmin(ok), ok.shape)
    return 'entry %s is %s, expected %s' % (tuple(int(i) for i in k), x[k], y[k])

# ---- contracts --------------------------------------------------------------------
class Anything(object):
    """unconstrained output"""
ANY = Anything()

class FunContract(object):
    """contract of one real function"""
    def __init__(self, fn, spec, cases, modifies=(), may_raise=None, name=None, callees=(), numeric=True, loops=None, tol=1e-7, result_of=None, call=None, max_paths=64, nenv=6, mod2pi=False, post=None, requires=None, at_call=None):
        self.requires = requires; self.at_call = at_call or spec      # at_call: the result a caller may rely on
        self.fn = fn; self.spec = spec; self.cases = cases; self.modifies = modifies
        self.may_raise = may_raise; self.name = name or fn.__qualname__
        self.callees = callees; self.numeric = numeric; self.loops = loops or {}
        self.tol = tol; self.result_of = result_of; self.call = call; self.max_paths = max_paths
        self.nenv = nenv; self.post = post
        if post is not None or spec is None: self.numeric = False
    @property
    def key(self): return (self.fn.__module__, self.fn.__qualname__)
    def callsite(self, interp, *args, **kw):
        if self.requires is not None:
            for c in self.requires(*args, **kw): interp.side.append(('precondition of %s' % self.name, c))
        return self.at_call(*snapshot(list(args)), **snapshot(kw))      # the contract speaks about the arguments at the call

class Obl(object):
    __slots__ = ('name', 'status', 'backend', 'time', 'detail')
    def __init__(self, name, status, backend='', time=0.0, detail=''):
        self.name = name; self.status = status; self.backend = backend; self.time = time; self.detail = detail

class Violation(Exception):
    def __init__(self, what, replay): self.what = what; self.replay = replay

def leaves(a, b, name):
    """pairs of corresponding leaves (name, actual, expected) or a mismatch marker"""
    if b is ANY: return
    if isinstance(b, (tuple, list)):
        if isinstance(a, (tuple, list)) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                for r in leaves(x, y, '%s[%d]' % (name, i)): yield r
        else: yield (name, a, b, 'structure')
        return
    if isinstance(b, dict):
        for k in b:
            if not isinstance(a, dict) or k not in a: yield ('%s[%r]' % (name, k), None, b[k], 'missing')
            else:
                for r in leaves(a[k], b[k], '%s[%r]' % (name, k)): yield r
        return
    yield (name, a, b, None)

def equal_obligations(name, a, b, path):
    """list of (name, thunk) deciding actual == expected"""
    if isinstance(b, SArray):
        a = A.aslift(a) if isinstance(a, (np.ndarray, list)) or hasattr(a, 'tocoo') else a
        if not isinstance(a, SArray):
            return [(name + ': is an array', lambda: False)]
        out = []
        def shp():
            return a.ndim == b.ndim and all(same_axis(x, y, path) for x, y in zip(a.axes, b.axes))
        out.append((name + ': shape', shp))
        if a.ndim != b.ndim: return out
        fa, fb = a.fn, b.fn
        gens = [A.generic_index(ax, 'i%d' % d) for d, ax in enumerate(b.axes)]
        import itertools
        for combo in itertools.product(*gens):
            ix = tuple(c[0] for c in combo); conds = [c[1] for c in combo if c[1] is not t.TRUE]
            def ent(ix=ix, conds=conds):
                if not all(same_axis(x, y, path) for x, y in zip(a.axes, b.axes)): return False
                x, y = fa(*ix), fb(*ix)
                d = t.lift(x) - t.lift(y)
                r = solve.is_zero(d, list(path) + conds, ivs=ix)
                if not r and os.environ.get('PV_SHOW'): sys.__stderr__.write('PATH %s\nDIFF %s %s\n' % ([p.s() for p in list(path) + conds], name, t.polyT(t.norm(d)).s()[:3000]))
                return r
            out.append((name + ': entry %s' % (ixname(ix),), ent))
        return out
    if isinstance(b, T):
        if isinstance(a, SArray) or a is None or isinstance(a, (str, tuple, list, dict)): return [(name + ': is a scalar', lambda: False)]
        return [(name, lambda: solve.is_zero(t.lift(a.to_T() if isinstance(a, Size) else (a.item() if isinstance(a, np.generic) else a)) - b, path))]
    if isinstance(b, Size):
        return [(name, lambda: solve.is_zero((a.to_T() if isinstance(a, Size) else t.lift(a)) - b.to_T(), path))]
    if isinstance(b, (bool, int, float, complex)):
        if isinstance(a, (T, Size)):
            return [(name, lambda: solve.is_zero((a.to_T() if isinstance(a, Size) else t.lift(a)) - t.lift(b), path))]
        return [(name, lambda: bool(a == b))]
    if isinstance(b, np.ndarray):
        return equal_obligations(name, a, A.aslift(b), path)
    return [(name, lambda: (a is b) or (type(a) == type(b) and bool(a == b)))]

def ixname(ix):
    return '(' + ','.join(('b%d' % x[0] if isinstance(x, tuple) else (str(x) if isinstance(x, int) else '*')) for x in ix) + ')'

def same_axis(x, y, path):
    if x.same(y): return True
    if x.kind == 'cat' and y.kind == 'cat' and len(x.parts) == len(y.parts): return all(same_axis(p, q, path) for p, q in zip(x.parts, y.parts))
    if x.kind == 'dim' and y.kind == 'dim' and x.dim == y.dim:
        v = t.iv('m', x.dim)
        return solve.is_zero(t.br(x.cond(v)) - t.br(y.cond(v)), path)
    return False

CONTRACTS = {}      # key -> FunContract, for call sites
def register(c):
    CONTRACTS[c.key] = c
    return c

class Report(object):
    def __init__(self): self.obls = []; self.functions = []; self.undecided = []; self.violations = []; self.cross = 0; self.runtime_evals = 0; self.interpreted = set(); self.contracts_used = set(); self.notes = []

def verify_contract(c, rep, seed=1, deadline=None, log=None, only=None):
    """discharge all obligations of one contract; violations are replayed on the real code"""
    t_start = time.time()
    calls = {}
    for k in c.callees:
        cc = CONTRACTS[k] if not isinstance(k, FunContract) else k
        calls[cc.key] = cc.callsite
    proved_all = True
    for label, case in c.cases.items():
        if only is not None and label != only: continue
        S = Sym()
        name = '%s/%s' % (c.name, label)
        try:
            made = case(S)
            def thunk():
                args = case(S)      # fresh mutable arguments on every path
                kw = {}
                if isinstance(args, tuple) and len(args) == 2 and isinstance(args[1], dict) and isinstance(args[0], list): args, kw = args
                args = list(args)
                if c.requires is not None:
                    for r in c.requires(*args, **kw):
                        if not A.decide_hook(r): raise Infeasible()
                snap = snapshot(args)
                exp = c.spec(*snapshot(args), **kw) if c.spec is not None else ANY
                mods = {}
                if c.modifies:
                    if c.spec is not None: exp, mods = exp
                    else: mods = {i: ANY for i in c.modifies}
                it = interp
                f = c.fn
                if c.call: out = c.call(it, f, args, kw)
                else: out = it.call_py(f, args, kw)
                extra = c.post(out, args, snap, list(it.ghost), it) if c.post is not None else []
                return out, exp, mods, args, snap, extra
            interp = Interp(contracts=calls, assume=list(S.pre), loop_contracts=c.loops, max_paths=c.max_paths)
            results = interp.explore(thunk)
            rep.interpreted |= interp.called; rep.contracts_used |= interp.contract_used
            npaths = 0
            failed = []
            for pi, (path, (kind, val), side) in enumerate(results):
                if not solve.feasible(path): continue
                npaths += 1
                pn = '%s path %d' % (name, pi)
                if kind == 'raise':
                    ok = c.may_raise is not None and c.may_raise(val, path)
                    rep.obls.append(Obl(pn + ': no exception', 'proved' if ok else 'failed', 'path', 0, repr(val)))
                    if not ok: failed.append((pn + ': no exception (%r)' % (val,), path))
                    continue
                todo = []
                if kind == 'cut': out, exp, mods, args, snap, extra = ANY, ANY, {}, [], [], []
                else: out, exp, mods, args, snap, extra = val
                for nm, x, y, bad in leaves(out, exp, 'result'):
                    if bad: todo.append(('%s: %s' % (nm, bad), lambda: False))
                    else: todo.extend(equal_obligations(nm, x, y, path))
                for i, (x, y) in enumerate(zip(args, snap)):
                    tgt = mods.get(i, y)
                    if tgt is ANY: continue
                    for nm, p, q, bad in leaves(x, tgt, 'arg%d%s' % (i, '' if i in mods else ' (frame)')):
                        if isinstance(p, SArray) and isinstance(q, SArray) and i not in mods and getattr(p, '_fn', 0) is not None and p._fn is q._fn and p._fn is not None:
                            rep.obls.append(Obl('%s: %s unchanged' % (pn, nm), 'proved', 'frame')); continue
                        if bad: todo.append((nm + bad, lambda: False))
                        elif isinstance(q, (SArray, T)): todo.extend(equal_obligations(nm, p, q, path))
                for nm, cond in side: todo.append((nm, lambda cond=cond: decide_claim(cond, path)))
                for nm, cond in extra: todo.append((nm, lambda cond=cond: decide_claim(cond, path)))
                for nm, th in todo:
                    t0 = time.time()
                    q0 = solve.STATS['z3_queries']
                    try:
                        r = th()
                        st = 'proved' if r else 'failed'; det = ''
                    except Unsupported as e:
                        st = 'undecided'; det = str(e)
                    except ShapeError as e:
                        st = 'failed'; det = str(e)
                    be = 'normal form' + ('+z3' if solve.STATS['z3_queries'] > q0 else '')
                    rep.obls.append(Obl('%s: %s' % (pn, nm), st, be, time.time() - t0, det))
                    if log: log('%-9s %s %s' % (st, pn + ': ' + nm, det))
                    if st != 'proved': failed.append(('%s: %s%s' % (pn, nm, ' [%s]' % det if det else ''), path))
            if npaths == 0:
                raise Unsupported('no feasible path: vacuous')
            # cross-check / replay on the real code
            if c.numeric:
                replay_contract(c, name, S, results, failed, rep, seed)
            for f, path in failed:
                proved_all = False
                rep.undecided.append(f)
        except (Unsupported, ShapeError, RecursionError) as e:
            proved_all = False
            rep.undecided.append('%s: outside the engine: %s%s' % (name, e, '  [at %s]' % getattr(e, 'at', '') if os.environ.get('PV_DEBUG') else ''))
            if os.environ.get('PV_DEBUG'): traceback.print_exc(file=open('/tmp/tb', 'w'))
    rep.functions.append({'function': '%s.%s' % c.key, 'contract': c.name, 'proved': proved_all, 'wall_s': round(time.time() - t_start, 3)})
    return proved_all

def decide_claim(c, path, ivs=()):
    """a claim is a term that must be zero, a condition that must hold, an entry-wise claim
    (axes, fn), or a thunk"""
    if isinstance(c, Claim):
        import itertools
        for combo in itertools.product(*[A.generic_index(ax, 'q') for ax in c.axes]):
            ix = tuple(x[0] for x in combo); conds = [x[1] for x in combo if x[1] is not t.TRUE]
            if c.given is not None: conds = conds + list(c.given(*ix))
            if not decide_claim(c.fn(*ix), list(path) + conds, tuple(ivs) + ix): return False
        return True
    if isinstance(c, T) and t.DEFS and NAMED:
        # with abbreviated values: as they stand, then with the numbers, then everything spelt out
        c1 = t.unfold(c, scalars=True)
        if decide_claim0(c, path, ivs): return True
        if c1 is not c and decide_claim0(c1, path, ivs): return True
        for _ in range(6):
            c2 = t.unfold(c1)
            if c2 is c1: return False
            if decide_claim0(c2, path, ivs): return True
            c1 = c2
        return False
    return decide_claim0(c, path, ivs)
NAMED = []
def decide_claim0(c, path, ivs=()):
    if isinstance(c, T):
        if c.op in t.SCALAR:
            r = solve.is_zero(c, path, ivs=ivs)
            if not r and os.environ.get('PV_SHOW'): sys.__stderr__.write('PATH %s\nDIFF %s\n' % ([p.s() for p in path], t.polyT(t.norm(c)).s()[:3000]))
            return r
        r = solve.valid(path, c)
        if not r and os.environ.get('PV_SHOW'): sys.__stderr__.write('PATH %s\nGOAL %s\n' % ([p.s() for p in path], c.s()[:3000]))
        return r
    if callable(c):
        A.PATH.append(list(path))
        try: return bool(c())
        finally: A.PATH.pop()
    return bool(c)

class Claim(object):
    """for all indices in axes with the conditions given(*ix): fn(*ix)"""
    def __init__(self, axes, fn, given=None): self.axes = axes; self.fn = fn; self.given = given

def snapshot(x):
    if isinstance(x, list): return [snapshot(y) for y in x]
    if isinstance(x, tuple): return tuple(snapshot(y) for y in x)
    if isinstance(x, dict): return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, SArray):
        r = SArray(x.axes, None, x.kind, x.storage, base=x.base, vmap=x.vmap, vinv=x.vinv)
        if x.base is None: r._fn = x._fn
        else:
            r.base = None; r._setfn(x.fn)
        return r
    if isinstance(x, np.ndarray): return x.copy()
    return x

def replay_contract(c, name, S, results, failed, rep, seed):
    n = c.nenv if not failed else 4 * c.nenv
    for k in range(n):
        env = RandEnv(S, seed * 1000 + k)
        hit = None
        for (path, (kind, val), side) in results:
            try:
                if kind != 'cut' and all(t.ev(p, env, {}) for p in path): hit = (path, kind, val); break
            except Unsupported: return
        if hit is None: continue
        path, kind, val = hit
        cargs = None
        S2 = S
        args = c.cases[name.split('/', 1)[1]](S)
        kw = {}
        if isinstance(args, tuple) and len(args) == 2 and isinstance(args[1], dict) and isinstance(args[0], list): args, kw = args
        try: cargs = concretise(list(args), env)
        except (Unsupported, ZeroDivisionError, OverflowError): continue
        keep = snapcon(cargs)
        try:
            with np.errstate(all='ignore'):
                real = c.fn(*cargs, **kw) if not c.call else c.call(None, c.fn, cargs, kw)
            exc = None
        except Exception as e:
            exc = e; real = None
        rep.cross += 1
        if exc is not None:
            if kind == 'raise': continue
            ok = c.may_raise is not None and c.may_raise(exc, None)
            if ok: continue
            rep.violations.append({'contract': c.name, 'case': name, 'what': 'raises %s: %s' % (type(exc).__name__, exc), 'seed': seed * 1000 + k, 'args': keep})
            return
        if kind == 'raise':
            rep.notes.append('%s: the engine predicts an exception the real code does not raise' % name)
            continue
        out, exp, mods, sargs, snap, _x = val
        if c.result_of: real = c.result_of(real)
        try: cexp = concretise_spec(exp, env)
        except (Unsupported, ZeroDivisionError, OverflowError) as e: continue
        d = cmp_real(real, cexp, c.tol)
        if d is None:
            for i in range(len(cargs)):
                tgt = mods.get(i, None)
                if tgt is ANY: continue
                e2 = concretise_spec(tgt, env) if i in mods else keep[i]
                d2 = cmp_real(cargs[i], e2, c.tol) if isinstance(e2, (np.ndarray, list, tuple, dict)) or hasattr(e2, 'tocoo') else None
                if d2: d = 'argument %d after the call: %s' % (i, d2); break
        if d:
            rep.violations.append({'contract': c.name, 'case': name, 'what': d, 'seed': seed * 1000 + k, 'args': keep})
            return
        # engine against CPython
        try:
            d = cmp_real(real, concretise_spec(mask_any(out, exp), env), c.tol)
        except (Unsupported, ZeroDivisionError, OverflowError): d = None
        if d: rep.notes.append('ENGINE MISMATCH %s: %s' % (name, d))

def mask_any(a, b):
    if b is ANY: return ANY
    if isinstance(b, (tuple, list)) and isinstance(a, (tuple, list)) and len(a) == len(b): return tuple(mask_any(x, y) for x, y in zip(a, b))
    if isinstance(b, dict) and isinstance(a, dict): return {k: mask_any(a[k], b[k]) for k in b if k in a}
    return a

def concretise_spec(x, env):
    if x is ANY: return ANY
    if isinstance(x, tuple): return tuple(concretise_spec(y, env) for y in x)
    if isinstance(x, list): return [concretise_spec(y, env) for y in x]
    if isinstance(x, dict): return {k: concretise_spec(v, env) for k, v in x.items()}
    return concretise(x, env)

def cmp_real(a, b, tol):
    if b is ANY: return None
    if isinstance(b, (tuple, list)) and not isinstance(a, np.ndarray):
        if not isinstance(a, (tuple, list)) or len(a) != len(b): return 'structure'
        for i, (x, y) in enumerate(zip(a, b)):
            d = cmp_real(x, y, tol)
            if d: return '[%d] %s' % (i, d)
        return None
    if isinstance(b, dict):
        for k in b:
            if k not in a: return 'missing %r' % k
            d = cmp_real(a[k], b[k], tol)
            if d: return '[%r] %s' % (k, d)
        return None
    return num_diff(a, b, tol)

def snapcon(x):
    if isinstance(x, list): return [snapcon(y) for y in x]
    if isinstance(x, tuple): return tuple(snapcon(y) for y in x)
    if isinstance(x, dict): return {k: snapcon(v) for k, v in x.items()}
    if isinstance(x, np.ndarray) or hasattr(x, 'tocoo'): return x.copy()
    return x
