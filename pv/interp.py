"""Symbolic interpreter for the Python subset used by the verified functions.

The text interpreted is the AST of the real function, parsed on every run from
the file the function object was loaded from.  Nothing is translated by hand:
names are resolved in the real module's namespace, calls to numpy/scipy
functions are replaced by the models in npmodel, calls to other functions of
the package are replaced by their contracts where given and interpreted
otherwise.  Branches on symbolic conditions fork the path (by re-execution)."""
import os, ast, inspect, operator, types, math, builtins, textwrap, sys
import numpy as np
from . import terms as t
from . import arrays as A
from .terms import T, Unsupported
from .arrays import SArray, Size, ShapeError

class PyRaise(Exception):
    """the interpreted code raises"""
    def __init__(self, exc): self.exc = exc
    def __str__(self): return 'raised %r' % (self.exc,)

class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass
NAMING = []        # a contract may give names (definitions) to large intermediate results
def plain_test(x):
    atom = lambda y: isinstance(y, (ast.Name, ast.Constant)) or isinstance(y, ast.BinOp) and atom(y.left) and atom(y.right) or isinstance(y, ast.UnaryOp) and atom(y.operand) or isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and isinstance(y.slice, ast.Constant)
    if isinstance(x, ast.Compare): return atom(x.left) and all(atom(y) for y in x.comparators) and not any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops)
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'any' and len(x.args) == 1
class Infeasible(Exception): pass
class LoopCut(Exception):
    pass

_astcache = {}
def fn_ast(f):
    code = f.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    if key in _astcache: return _astcache[key]
    src = open(code.co_filename).read()
    tree = ast.parse(src)
    best = None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            ln = n.lineno
            if isinstance(n, ast.FunctionDef):
                if n.decorator_list: ln = min(ln, n.decorator_list[0].lineno)
                if n.name == code.co_name and ln == code.co_firstlineno: best = n
            elif code.co_name == '<lambda>' and ln == code.co_firstlineno: best = n
    if best is None: raise Unsupported('no source for %s' % code.co_name)
    _astcache[key] = best
    return best

def by_position(f, args, kw):
    """arguments given by keyword put in their position, so that a contract sees one form of a call"""
    if not kw: return args, kw
    import inspect
    ps = list(inspect.signature(f).parameters.values())
    if any(p.kind != p.POSITIONAL_OR_KEYWORD for p in ps): return args, kw
    try: b = inspect.signature(f).bind(*args, **kw).arguments
    except TypeError as e: raise PyRaise(e)
    n = max([i for i, p in enumerate(ps) if p.name in b] + [-1]) + 1
    return [b[p.name] if p.name in b else p.default for p in ps[:n]], {}

class SFunc(object):
    def __init__(self, node, frame, interp): self.node = node; self.frame = frame; self.interp = interp
    def __call__(self, *a, **k): return self.interp.call_sfunc(self, a, k)

class Frame(object):
    __slots__ = ('loc', 'glob', 'parent', 'name')
    def __init__(self, glob, parent=None, name=''):
        self.loc = {}; self.glob = glob; self.parent = parent; self.name = name

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.Pow: operator.pow, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv, ast.MatMult: operator.matmul,
          ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
CMPOPS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}

def symbolic(x, depth=0):
    if isinstance(x, (T, SArray, Size, A.NNZ, SFunc, A.NormInf)): return True
    if depth < 4:
        if isinstance(x, (SymRange, A.IxArr)): return True
        if isinstance(x, (list, tuple, set)): return any(symbolic(y, depth + 1) for y in x)
        if isinstance(x, dict): return any(symbolic(y, depth + 1) for y in x.values())
    return False

class Poison(object):
    def __init__(self, why): self.why = why

class Interp(object):
    def __init__(self, contracts=None, assume=(), loop_contracts=None, max_paths=64, solver=None):
        self.contracts = contracts or {}
        self.pre = list(assume)
        self.loop_contracts = loop_contracts or {}
        self.max_paths = max_paths
        self.decisions = []; self.pos = 0
        self.path = []
        self.called = set()         # functions interpreted
        self.contract_used = set()
        self.stack = []
        self.depth = 0
        self.steps = 0
        self.astof = {}
        self.ghost = []             # records of solver calls etc.
        self.side = []              # side obligations raised at call sites: (name, cond)
        from . import npmodel
        self.models = npmodel.MODELS
        self.np = npmodel

    # ---- paths ----
    def explore(self, thunk):
        """run thunk() on every feasible path; yields (path conditions, outcome)"""
        todo = [[]]
        results = []
        old = A.decide_hook
        A.decide_hook = self.decide
        try:
            while todo:
                self.decisions = list(todo.pop()); self.pos = 0; self.path = list(self.pre); self.pending = []
                self.side = []; self.ghost = []
                try:
                    out = ('ok', thunk())
                except PyRaise as e:
                    out = ('raise', e.exc)
                except Infeasible:
                    out = None
                except LoopCut:
                    out = ('cut', None)
                for d in self.pending: todo.append(d)
                if out is not None: results.append((list(self.path), out, list(self.side)))
                if len(results) > self.max_paths: raise Unsupported('too many paths')
        finally:
            A.decide_hook = old
        return results

    def decide(self, c):
        if isinstance(c, (bool, np.bool_)): return bool(c)
        if isinstance(c, Size): c = c.nonempty()
        if not isinstance(c, T):
            if hasattr(c, 'nonempty'): c = c.nonempty()
            else: return bool(c)
        c = t.ascond(c)
        p = t.normc(c)
        if not p: return False
        if p == t.pconst(1): return True
        from . import solve
        r = solve.implied(self.path, c)
        if r is not None: return r
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]; self.pos += 1
        else:
            d = True
            if os.environ.get('PV_FORKS'): open('/tmp/forks', 'a').write('%d %s | %s\n' % (len(self.path), str(c)[:200], getattr(self, 'at', '')))
            self.pending.append(self.decisions[:self.pos] + [False])
            self.decisions.append(True); self.pos += 1
        self.path.append(c if d else t.mknot(c))
        return d

    def truth(self, v):
        if isinstance(v, SymList): v = A.size_of(v.ax)
        if isinstance(v, SArray):
            n = v.size
            if n == 1:
                return self.decide(t.ascond(v.entry(*[0] * v.ndim)))
            if v.ndim == 1 and v.axes[0].isfix(0): return False
            # a one-element array is required by Python
            raise PyRaise(ValueError('truth value of an array'))
        if isinstance(v, (T, Size)) or hasattr(v, 'nonempty'): return self.decide(v)
        if isinstance(v, Poison): raise Unsupported('use of ' + v.why)
        if isinstance(v, np.ndarray) and v.size > 1: raise PyRaise(ValueError('truth value of an array'))
        return bool(v)

    # ---- calls ----
    def call(self, f, args, kw=None):
        kw = kw or {}
        self.steps += 1
        if isinstance(f, Poison): raise Unsupported(f.why)
        if hasattr(f, 'pv_call'): return f.pv_call(self, list(args), kw)
        if isinstance(f, SFunc): return self.call_sfunc(f, args, kw)
        if isinstance(f, types.MethodType):
            c = self.lookup_contract(f.__func__)
            if c is not None: return c(self, f.__self__, *args, **kw)
            if getattr(f.__func__, '__module__', '').startswith('pypower'):
                return self.call_py(f.__func__, (f.__self__,) + tuple(args), kw)
            if isinstance(f.__self__, (SArray, Size, T)) or getattr(f.__self__, '__pv_model__', False):
                return self.guard(f, args, kw)
        if isinstance(f, types.FunctionType):
            c = self.lookup_contract(f)
            if c is not None:
                args, kw = by_position(f, args, kw)
                return c(self, *args, **kw)
            if getattr(f, '__module__', '').startswith('pypower') or getattr(f, '__pv_interpret__', False):
                return self.call_py(f, args, kw)
        m = None
        try: m = self.models.get(f)
        except TypeError: pass
        if m is not None:
            return self.guard(m, args, kw) if not getattr(m, 'wants_interp', False) else m(self, *args, **kw)
        if isinstance(f, type) and getattr(f, '__module__', '').startswith('pypower'):
            o = f.__new__(f)
            init = f.__init__
            if isinstance(init, types.FunctionType): self.call_py(init, (o,) + tuple(args), kw)
            return o
        if isinstance(f, type) and issubclass(f, BaseException): return f(*args) if not symbolic(args) else f('symbolic')
        if f is builtins.super: raise Unsupported('super')
        # bound builtin methods of containers hold symbolic values happily
        s = getattr(f, '__self__', None)
        if isinstance(s, (dict, list, set)) and not isinstance(f, type):
            if isinstance(s, list) and f.__name__ in ('sort', 'index', 'remove', 'count') and symbolic((s,) + tuple(args)):
                raise Unsupported('list.' + f.__name__)
            return self.guard(f, args, kw)
        if isinstance(s, str) and symbolic(args): return '<formatted>'
        if s in (sys.stdout, sys.stderr) and s is not None: return None
        if isinstance(s, (T, SArray)): return self.guard(f, args, kw)
        if symbolic(args) or symbolic(kw): raise Unsupported('call of %r with symbolic arguments' % (getattr(f, '__name__', f),))
        return self.guard(f, args, kw)

    def lookup_contract(self, f):
        c = self.contracts.get((f.__module__, f.__qualname__))
        if c is not None and self.stack and self.stack[-1] == (f.__module__, f.__qualname__): return None
        if c is not None: self.contract_used.add((f.__module__, f.__qualname__))
        return c

    def guard(self, f, args, kw):
        try:
            return f(*args, **kw)
        except (Unsupported, PyRaise, _Return, Infeasible, LoopCut): raise
        except ShapeError as e: raise PyRaise(IndexError(str(e)))
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, AssertionError) as e:
            if symbolic(args) or symbolic(kw):
                raise Unsupported('%s: %s in %s' % (type(e).__name__, e, getattr(f, '__name__', f)))
            raise PyRaise(e)

    def call_py(self, f, args, kw):
        node = fn_ast(f)
        self.astof[(f.__module__, f.__qualname__)] = node
        self.called.add((f.__module__, f.__qualname__))
        fr = Frame(f.__globals__, None, f.__qualname__)
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try: fr.loc[n] = c.cell_contents
                except ValueError: pass
        self.bind(node.args, fr, args, kw, f.__defaults__ or (), f.__kwdefaults__ or {})
        return self.run_body(node, fr, (f.__module__, f.__qualname__))

    def call_sfunc(self, sf, args, kw):
        fr = Frame(sf.frame.glob, sf.frame, getattr(sf.node, 'name', '<lambda>'))
        d = [self.ev(x, sf.frame) for x in sf.node.args.defaults]
        kd = {a.arg: self.ev(x, sf.frame) for a, x in zip(sf.node.args.kwonlyargs, sf.node.args.kw_defaults) if x is not None}
        self.bind(sf.node.args, fr, args, kw, tuple(d), kd)
        return self.run_body(sf.node, fr, None)

    def run_body(self, node, fr, key):
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion')
        self.stack.append(key)
        try:
            if isinstance(node, ast.Lambda): return self.ev(node.body, fr)
            try:
                self.block(node.body, fr)
            except _Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.depth -= 1

    def bind(self, a, fr, args, kw, defaults, kwdefaults):
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args); kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args): fr.loc[n] = args[i]
            elif n in kw: fr.loc[n] = kw.pop(n)
            elif i >= len(names) - len(defaults): fr.loc[n] = defaults[i - (len(names) - len(defaults))]
            else: raise PyRaise(TypeError('missing argument ' + n))
        rest = args[len(names):]
        if a.vararg: fr.loc[a.vararg.arg] = tuple(rest)
        elif rest: raise PyRaise(TypeError('too many arguments'))
        for x in a.kwonlyargs:
            if x.arg in kw: fr.loc[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults: fr.loc[x.arg] = kwdefaults[x.arg]
        if a.kwarg: fr.loc[a.kwarg.arg] = kw
        elif kw: raise PyRaise(TypeError('unexpected keyword %s' % list(kw)))

    # ---- statements ----
    def block(self, stmts, fr):
        for s in stmts: self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(s).__name__)
        self.steps += 1
        if self.steps > 2000000: raise Unsupported('step limit')
        try: return m(s, fr)
        except (Unsupported, A.ShapeError) as e:
            if not hasattr(e, 'at'): e.at = '%s: %s' % (getattr(fr, 'name', ''), ast.unparse(s)[:150])
            raise

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, fr)
    def s_Pass(self, s, fr): pass
    def s_Return(self, s, fr): raise _Return(None if s.value is None else self.ev(s.value, fr))
    def s_Break(self, s, fr): raise _Break()
    def s_Continue(self, s, fr): raise _Continue()
    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            fr.loc[a.asname or a.name.split('.')[0]] = sys.modules[a.name] if a.asname else m
    def s_ImportFrom(self, s, fr):
        m = __import__(s.module, fromlist=[a.name for a in s.names])
        for a in s.names:
            if not hasattr(m, a.name): raise PyRaise(ImportError(a.name))
            fr.loc[a.asname or a.name] = getattr(m, a.name)
    def s_FunctionDef(self, s, fr): fr.loc[s.name] = SFunc(s, fr, self)
    def s_Global(self, s, fr): raise Unsupported('global')
    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)): raise PyRaise(AssertionError())
    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        if NAMING and isinstance(s.targets[0], ast.Name): v = NAMING[0](self, v)
        for tg in s.targets: self.assign(tg, v, fr)
    def s_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)
    def s_AugAssign(self, s, fr):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            old = self.ev(ast.Name(id=s.target.id, ctx=ast.Load()), fr)
            v = self.ev(s.value, fr)
            if isinstance(old, SArray) and old.storage == 'dense':
                r = self.binop(op, old.copy(), v)
                self.guard(A.setitem, (old, tuple([slice(None)] * old.ndim), r), {})
                if isinstance(r, SArray) and r.kind != old.kind and not (old.kind in 'fc' and r.kind in 'bif'):
                    if old.kind == 'f' and r.kind == 'c': raise PyRaise(TypeError('cannot cast in-place'))
                    if old.kind == 'i' and r.kind in 'fc': raise PyRaise(TypeError('cannot cast in-place'))
                return
            if isinstance(old, list):
                old += list(self.iterlist(v)); fr.loc[s.target.id] = old; return
            self.assign(s.target, self.binop(op, old, v), fr)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, fr); k = self.index(s.target.slice, fr)
            old = self.getitem(o, k)
            if isinstance(old, SArray) and old.base is not None: old = old.copy()
            self.setitem(o, k, self.binop(op, old, self.ev(s.value, fr)))
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr)
            setattr(o, s.target.attr, self.binop(op, getattr(o, s.target.attr), self.ev(s.value, fr)))
        else: raise Unsupported('augassign')
    def s_Delete(self, s, fr):
        for tg in s.targets:
            if isinstance(tg, ast.Name): fr.loc.pop(tg.id, None)
            elif isinstance(tg, ast.Subscript):
                o = self.ev(tg.value, fr); k = self.index(tg.slice, fr)
                if isinstance(o, (dict, list)):
                    try: del o[k]
                    except (KeyError, IndexError) as e: raise PyRaise(e)
                else: raise Unsupported('del')
            elif isinstance(tg, ast.Attribute): delattr(self.ev(tg.value, fr), tg.attr)
    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)): self.block(s.body, fr)
        else: self.block(s.orelse, fr)
    def s_Raise(self, s, fr):
        e = self.ev(s.exc, fr) if s.exc is not None else RuntimeError('re-raise')
        raise PyRaise(e)
    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                exc = e.exc
                for h in s.handlers:
                    ty = self.ev(h.type, fr) if h.type is not None else BaseException
                    et = exc if isinstance(exc, type) else type(exc)
                    if issubclass(et, ty):
                        if h.name: fr.loc[h.name] = exc
                        self.block(h.body, fr)
                        break
                else: raise
            else:
                self.block(s.orelse, fr)
        finally:
            self.block(s.finalbody, fr)
    def s_With(self, s, fr): raise Unsupported('with')

    def loop_contract(self, s):
        key = self.stack[-1] if self.stack else None
        lcs = self.loop_contracts.get(key)
        if not lcs: return None
        return lcs.get(self.loop_ordinal(key, s))
    def loop_ordinal(self, key, s):
        ty = type(s)
        fn = self.astof.get(key)
        loops = sorted((n for n in ast.walk(fn) if isinstance(n, ty)), key=lambda n: (n.lineno, n.col_offset))
        return ('while' if ty is ast.While else 'for', loops.index(s))
    def s_While(self, s, fr):
        lc = self.loop_contract(s)
        if lc is not None:
            from .loops import contract_loop
            return contract_loop(self, s, fr, lc, None)
        n = 0
        while True:
            c = self.ev(s.test, fr)
            if isinstance(c, T) and not (t.normc(t.ascond(c)) in ({}, t.pconst(1))) and n > 8:
                raise Unsupported('while loop without invariant')
            if not self.truth(c):
                self.block(s.orelse, fr); return
            n += 1
            if n > 10000: raise Unsupported('while bound')
            try: self.block(s.body, fr)
            except _Break: return
            except _Continue: pass

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        seq = self.iterate(it)
        if isinstance(seq, SymRange):
            lc = self.loop_contract(s)
            if lc is not None:
                from .loops import contract_loop
                return contract_loop(self, s, fr, lc, seq)
            from .loops import sym_loop
            return sym_loop(self, s, fr, seq)
        for x in seq:
            self.assign(s.target, x, fr)
            try: self.block(s.body, fr)
            except _Break: return
            except _Continue: continue
        self.block(s.orelse, fr)

    def iterate(self, it):
        if isinstance(it, SymRange): return it
        if isinstance(it, SymList): return SymRange(it.ax, it.item)
        if isinstance(it, SArray):
            ax = it.axes[0]
            if ax.kind == 'fix':
                if it.ndim == 1: return [it.entry(i) for i in range(ax.n)]
                return [A.getitem(it, i) for i in range(ax.n)]
            return SymRange(ax, (lambda ix: it.entry(ix)) if it.ndim == 1 else None)
        if isinstance(it, (T, Size)): raise PyRaise(TypeError('not iterable'))
        if isinstance(it, Poison): raise Unsupported(it.why)
        return list(it)

    def iterlist(self, v):
        r = self.iterate(v)
        if isinstance(r, SymRange): raise Unsupported('symbolic iteration')
        return r

    # ---- assignment ----
    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name): fr.loc[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vs = self.iterlist(v)
            st = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]; n = len(tg.elts) - i - 1
                for e, x in zip(tg.elts[:i], vs): self.assign(e, x, fr)
                self.assign(tg.elts[i].value, list(vs[i:len(vs) - n]), fr)
                for e, x in zip(tg.elts[i + 1:], vs[len(vs) - n:]): self.assign(e, x, fr)
                return
            if len(vs) != len(tg.elts): raise PyRaise(ValueError('unpack'))
            for e, x in zip(tg.elts, vs): self.assign(e, x, fr)
        elif isinstance(tg, ast.Subscript):
            self.setitem(self.ev(tg.value, fr), self.index(tg.slice, fr), v)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr)
            if isinstance(o, SArray):
                if tg.attr == 'flat': raise Unsupported('flat')
            setattr(o, tg.attr, v)
        else: raise Unsupported('assign target')

    def setitem(self, o, k, v):
        if isinstance(o, Poison): raise Unsupported(o.why)
        if isinstance(o, (dict,)):
            o[self.conckey(k)] = v; return
        if isinstance(o, list):
            if symbolic(k): raise Unsupported('symbolic list index')
            try: o[k] = v
            except IndexError as e: raise PyRaise(e)
            return
        if isinstance(o, np.ndarray):
            if symbolic(v) or symbolic(k): raise Unsupported('symbolic store into concrete array')
            try: o[k] = v
            except Exception as e: raise PyRaise(e)
            return
        self.guard(A.setitem, (o, k, v), {}) if isinstance(o, SArray) else self.guard(operator.setitem, (o, k, v), {})

    def conckey(self, k):
        if isinstance(k, T):
            if k.op == 'q' and k.a[1] == 0 and k.a[0].denominator == 1: return int(k.a[0])
            raise Unsupported('symbolic dict key')
        return k

    def getitem(self, o, k):
        if isinstance(o, Poison): raise Unsupported(o.why)
        if isinstance(o, dict):
            try: return o[self.conckey(k)]
            except KeyError as e: raise PyRaise(e)
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, T): k = self.conckey(k)
            if symbolic(k): raise Unsupported('symbolic list index')
            try: return o[k]
            except (IndexError, TypeError) as e: raise PyRaise(e)
        if isinstance(o, SymList): return o.at(k)
        if isinstance(o, np.ndarray) and symbolic(k): o = A.aslift(o)
        if isinstance(o, SArray): return self.guard(A.getitem, (o, k), {})
        if isinstance(o, T): raise PyRaise(TypeError('scalar not subscriptable'))
        if o is np.r_: return self.guard(self.np.m_rc, ('r', k), {})
        if o is np.c_: return self.guard(self.np.m_rc, ('c', k), {})
        return self.guard(operator.getitem, (o, k), {})

    # ---- expressions ----
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr): return e.value
    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.loc:
                v = f.loc[e.id]
                if isinstance(v, Poison): raise Unsupported('use of ' + v.why)
                return v
            f = f.parent
        if e.id in fr.glob: v = fr.glob[e.id]
        elif hasattr(builtins, e.id): v = getattr(builtins, e.id)
        else: raise PyRaise(NameError(e.id))
        return self.wrapglob(v)
    def wrapglob(self, v):
        if isinstance(v, float):
            if v == math.pi: return t.PI
        return v
    def e_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))
    def e_List(self, e, fr): return list(self.elts(e.elts, fr))
    def e_Set(self, e, fr): return set(self.elts(e.elts, fr))
    def elts(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred): out.extend(self.iterlist(self.ev(x.value, fr)))
            else: out.append(self.ev(x, fr))
        return out
    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.ev(v, fr))
            else: d[self.conckey(self.ev(k, fr))] = self.ev(v, fr)
        return d
    def e_Lambda(self, e, fr): return SFunc(e, fr, self)
    def e_IfExp(self, e, fr):
        return self.ev(e.body, fr) if self.truth(self.ev(e.test, fr)) else self.ev(e.orelse, fr)
    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        if NAMING and all(plain_test(x) for x in e.values):
            # comparisons of numbers evaluate without effect: one decision instead of one per operand
            vs = [self.ev(x, fr) for x in e.values]
            if any(isinstance(x, T) and x.op in t.COND for x in vs) and all(isinstance(x, bool) or isinstance(x, np.bool_) or isinstance(x, T) and x.op in t.COND for x in vs):
                return (t.mkand if isand else t.mkor)(*[x if isinstance(x, T) else (t.TRUE if x else t.FALSE) for x in vs])
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1: return v
            tv = self.truth(v)
            if isand and not tv: return v if not isinstance(v, T) else False
            if not isand and tv: return v if not isinstance(v, T) or v.op not in t.COND else True
        return v
    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, T) and v.op in t.COND: return t.mknot(v)
            if isinstance(v, Size) : return t.mknot(v.nonempty())
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, SArray) and v.kind == 'b':
                raise PyRaise(TypeError('numpy boolean negative'))
            return self.guard(operator.neg, (v,), {})
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert): return self.guard(operator.invert, (v,), {})
        raise Unsupported('unary')
    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr); b = self.ev(e.right, fr)
        return self.binop(BINOPS[type(e.op)], a, b)
    def binop(self, op, a, b):
        if op is operator.truediv and isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
            if b == 0: raise PyRaise(ZeroDivisionError())
            return t.q(t.Fr(a, b)) if a % b else float(a // b)
        if op is operator.mod and isinstance(a, str): return '<formatted>' if symbolic(b) else self.guard(op, (a, b), {})
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported('poison')
        if hasattr(a, 'tocoo') and symbolic(b): a = A.aslift(a)
        if hasattr(b, 'tocoo') and symbolic(a): b = A.aslift(b)
        if isinstance(a, list) and isinstance(b, SArray): a = A.aslift(a)
        if isinstance(b, list) and isinstance(a, SArray): b = A.aslift(b)
        if isinstance(a, np.ndarray) and isinstance(b, (T, Size)): a = A.aslift(a)
        if isinstance(b, np.ndarray) and isinstance(a, (T, Size)): b = A.aslift(b)
        if isinstance(a, np.generic): a = a.item()
        if isinstance(b, np.generic): b = b.item()
        if op in (operator.and_, operator.or_) and (isinstance(a, T) and a.op in t.COND or isinstance(b, T) and b.op in t.COND):
            if isinstance(a, (bool, T)) and isinstance(b, (bool, T)):
                return (t.mkand if op is operator.and_ else t.mkor)(t.ascond(a), t.ascond(b))
        return self.guard(op, (a, b), {})
    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            v = self.compare(op, left, right)
            if len(e.ops) == 1: return v
            if i < len(e.ops) - 1:
                if not self.truth(v): return False
            else: return v
            left = right
        return res
    def compare(self, op, a, b):
        if isinstance(op, ast.Is): return a is b
        if isinstance(op, ast.IsNot): return a is not b
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, dict) or isinstance(b, (set, frozenset)): r = self.conckey(a) in b
            elif isinstance(b, str) and isinstance(a, str): r = a in b
            elif isinstance(b, (list, tuple, range)):
                if not symbolic(a) and not symbolic(b): r = a in b
                else:
                    r = False
                    for x in b:
                        q = self.compare(ast.Eq(), a, x)
                        r = t.mkor(t.ascond(r), t.ascond(q))
                    if r is t.TRUE: r = True
                    if r is t.FALSE: r = False
            elif not symbolic(a) and not symbolic(b): r = a in b
            else: raise Unsupported('in')
            if isinstance(op, ast.NotIn): return t.mknot(r) if isinstance(r, T) else not r
            return r
        f = CMPOPS[type(op)]
        if isinstance(a, np.generic): a = a.item()
        if isinstance(b, np.generic): b = b.item()
        if isinstance(a, (np.ndarray, list)) and symbolic(b) and isinstance(b, (SArray, T, Size)): a = A.aslift(a)
        if isinstance(b, (np.ndarray, list)) and symbolic(a) and isinstance(a, (SArray, T, Size)): b = A.aslift(b)
        if isinstance(a, T) and isinstance(b, (str, type(None))) or isinstance(b, T) and isinstance(a, (str, type(None))):
            return isinstance(op, ast.NotEq)
        if isinstance(a, T) and a.op in t.COND and isinstance(b, T) and b.op in t.COND and isinstance(op, (ast.Eq, ast.NotEq)):
            r = t.eq0(t.br(a) - t.br(b))
            return r if isinstance(op, ast.Eq) else t.mknot(r)
        if isinstance(a, T) and a.op in t.COND: a = t.br(a)
        if isinstance(b, T) and b.op in t.COND: b = t.br(b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and symbolic((a, b)):
            if not isinstance(op, (ast.Eq, ast.NotEq)): raise Unsupported('sequence comparison')
            if len(a) != len(b): return isinstance(op, ast.NotEq)
            r = t.TRUE
            for x, y in zip(a, b): r = t.mkand(r, t.ascond(self.compare(ast.Eq(), x, y)))
            return r if isinstance(op, ast.Eq) else t.mknot(r)
        if isinstance(a, Size) and isinstance(b, T) : a = a.to_T()
        if isinstance(b, Size) and isinstance(a, T) : b = b.to_T()
        if isinstance(b, Size) and isinstance(a, (int, float)):
            f = {operator.lt: operator.gt, operator.gt: operator.lt, operator.le: operator.ge, operator.ge: operator.le}.get(f, f)
            a, b = b, a
        return self.guard(f, (a, b), {})
    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None: kw.update(self.ev(k.value, fr))
            else: kw[k.arg] = self.ev(k.value, fr)
        if f is builtins.exec or f is builtins.eval:
            # text built by the program: parsed and run where it is called
            if len(args) != 1 or kw or not isinstance(args[0], str): raise Unsupported('exec')
            if f is builtins.eval: return self.ev(ast.parse(args[0].strip(), mode='eval').body, fr)
            body = ast.parse(args[0]).body
            if any(isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) for b in body for n in ast.walk(b)) or any(isinstance(b, (ast.Return, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global)) for b in body): raise Unsupported('exec of %r' % args[0])
            self.block(body, fr)
            return None
        return self.call(f, args, kw)
    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(o, Poison): raise Unsupported(o.why)
        if isinstance(o, types.ModuleType): return self.wrapglob(getattr(o, e.attr))
        if isinstance(o, SArray) and not hasattr(SArray, e.attr) and e.attr not in ('fmt',):
            raise Unsupported('array attribute ' + e.attr)
        if isinstance(o, np.ndarray) and e.attr in ('dot',) : o = A.aslift(o)
        if hasattr(o, 'tocoo') and e.attr in ('dot', 'multiply'): o = A.aslift(o)
        if isinstance(o, (int, float)) and e.attr in ('real', 'imag', 'conj'): o = t.lift(o)
        if isinstance(o, T):
            if e.attr in ('real', 'imag'): return getattr(o, e.attr)
            if e.attr in ('conj', 'conjugate'): return o.conj
            if e.attr == 'shape': return ()
            if e.attr == 'copy': return lambda: o
            if e.attr == 'T': return o
            if e.attr == 'astype':
                from .npmodel import m_int
                return lambda k: m_int(o) if k in (int, np.int64, np.int32) else o
            if e.attr == 'item': return lambda: o
            if e.attr in ('any', 'all'): return lambda *a: t.ascond(o)
            raise Unsupported('scalar attribute ' + e.attr)
        if isinstance(o, A.Size):
            if e.attr == 'astype': return lambda k, **kw: o
            raise Unsupported('attribute %s of a length' % e.attr)
        try: return getattr(o, e.attr)
        except AttributeError as x:
            raise PyRaise(x)
    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.index(e.slice, fr))
    def index(self, s, fr):
        if isinstance(s, ast.Tuple): return tuple(self.index(x, fr) for x in s.elts)
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.unsize(self.ev(x, fr)) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)
    def unsize(self, v): return v
    def e_Slice(self, e, fr): return self.index(e, fr)
    def e_JoinedStr(self, e, fr): return '<formatted>'
    def comp(self, gens, fr, emit):
        g = gens[0]
        seq = self.iterate(self.ev(g.iter, fr))
        if isinstance(seq, SymRange): raise Unsupported('comprehension over symbolic range')
        for x in seq:
            self.assign(g.target, x, fr)
            if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                if len(gens) > 1: self.comp(gens[1:], fr, emit)
                else: emit()
    def e_ListComp(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            seq = self.iterate(self.ev(e.generators[0].iter, fr))
            if isinstance(seq, SymRange):
                # a list of symbolic length with element i given by the expression: kept as array
                f2 = Frame(fr.glob, fr, 'comp')
                v = t.fresh(seq.ax.dim) if seq.ax.kind == 'dim' else None
                if v is None: raise Unsupported('comprehension axis')
                self.assign(e.generators[0].target, seq.item(v), f2)
                x = self.ev(e.elt, f2)
                if isinstance(x, (T, int, float)):
                    x = t.lift(x) if not (isinstance(x, T) and x.op in t.COND) else x
                    return SymList(SArray([seq.ax], lambda i: t.subst(x, {v: i}), A.skind(x)))
                raise Unsupported('comprehension element')
        out = []
        f2 = Frame(fr.glob, fr, 'comp')
        self.comp(e.generators, f2, lambda: out.append(self.ev(e.elt, f2)))
        return out
    def e_GeneratorExp(self, e, fr): return self.e_ListComp(e, fr)
    def e_SetComp(self, e, fr): return set(self.e_ListComp(e, fr))
    def e_DictComp(self, e, fr):
        out = {}
        f2 = Frame(fr.glob, fr, 'comp')
        def emit(): out[self.conckey(self.ev(e.key, f2))] = self.ev(e.value, f2)
        self.comp(e.generators, f2, emit)
        return out
    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr); self.assign(e.target, v, fr); return v
    def e_Starred(self, e, fr): raise Unsupported('starred')

def SymList(a): return a

class SymList(object):
    """a list of symbolic length; item(ix) is its entry at a position of the axis"""
    def __init__(self, ax, item): self.ax = ax; self.item = item
    def at(self, k):
        if isinstance(k, T) and k.op == 'idx' and not isinstance(k.a[0], int):
            return self.item(k.a[0])
        raise Unsupported('entry of a list of symbolic length')

class SymRange(object):
    """iteration over an axis of symbolic length"""
    def __init__(self, ax, item=None, start=0):
        self.ax = ax; self._item = item
    def item(self, ix):
        if self._item is not None: return self._item(ix)
        return t.mk('idx', A.position(self.ax, ix))
