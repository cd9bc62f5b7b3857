"""Models of the numpy / scipy.sparse / builtin functions used by the verified
code.  Each model is an assumed contract on a dependency: it is cross-checked
against the real numpy/scipy on every run (pv.crosscheck), not proved."""
import builtins, sys, math, operator
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from . import terms as t
from . import arrays as A
from .terms import T, Unsupported
from .arrays import SArray, Size, ShapeError, aslift, fixaxis, toaxis, position

MODELS = {}
def model(*fs):
    def deco(g):
        for f in fs: MODELS[f] = g
        return g
    return deco

def sym(x):
    from .interp import symbolic, SymRange
    return symbolic(x) or isinstance(x, SymRange)

def arr(x):
    """SArray / python scalar / T from any array-like"""
    from .interp import SymRange, PyRaise
    if isinstance(x, SymRange): return arange_ax(x.ax)
    if isinstance(x, (list, tuple)): return m_array(x)
    if isinstance(x, Size): return x
    return aslift(x)

def concrete_or(f):
    """use the real function when nothing is symbolic"""
    def deco(g):
        def h(*a, **k):
            if not sym(a) and not sym(k):
                from .interp import PyRaise
                try: return f(*a, **k)
                except (ValueError, IndexError, TypeError, ZeroDivisionError, np.linalg.LinAlgError) as e: raise PyRaise(e)
            return g(*a, **k)
        h.__name__ = getattr(f, '__name__', 'f')
        MODELS[f] = h
        return h
    return deco

def arange_ax(ax):
    return SArray([ax], lambda i: t.mk('idx', position(ax, i)), 'i')

# ---- construction -------------------------------------------------------------
def m_array(x, dtype=None, copy=True, **kw):
    from .interp import SymRange, PyRaise
    if isinstance(x, SymRange): return arange_ax(x.ax)
    if isinstance(x, SArray):
        if x.storage == 'sparse': raise Unsupported('array() of a sparse matrix')
        r = x.copy() if x.storage == 'dense' else SArray(x.axes, x.fn, x.kind, 'dense')
        return r.astype(dtype) if dtype is not None else r
    if not sym(x):
        return np.array(x, dtype=dtype) if dtype is not None else np.array(x)
    if isinstance(x, (T, Size)):
        return x
    if isinstance(x, (list, tuple)):
        if all(isinstance(y, (T, Size, int, float, complex, np.generic)) for y in x):
            ys = [y.to_T() if isinstance(y, Size) else (y if isinstance(y, T) else t.lift(y.item() if isinstance(y, np.generic) else y)) for y in x]
            if any(y.op in t.COND for y in ys): ys = [y for y in ys]
            kind = max((A.skind(y) for y in x), key=lambda k: A.ORDER[k])
            if kind != 'b': ys = [t.lift(y) for y in ys]
            ys = list(ys)
            r = SArray([fixaxis(len(ys))], lambda i: ys[i], kind)
            return r.astype(dtype) if dtype is not None else r
        rows = [arr(y) for y in x]
        if all(isinstance(r, SArray) and r.ndim == 1 for r in rows):
            for r in rows[1:]: A.match_axes(rows[0].axes[0], r.axes[0])
            fs = [r.fn for r in rows]
            kind = max((r.kind for r in rows), key=lambda k: A.ORDER[k])
            return SArray([fixaxis(len(rows)), rows[0].axes[0]], lambda i, j: fs[i](j), kind)
    raise Unsupported('array(%r)' % (type(x),))
MODELS[np.array] = m_array

@model(np.asarray, np.asanyarray)
def m_asarray(x, dtype=None, **kw):
    if isinstance(x, SArray):
        if x.storage == 'matrix': x = SArray(x.axes, x.fn, x.kind, 'dense')
        return x.astype(dtype) if dtype is not None and not kind_is(x, dtype) else x
    return m_array(x, dtype)

def kind_is(x, dtype):
    return {bool: 'b', int: 'i', float: 'f', complex: 'c'}.get(dtype) == x.kind

@model(np.copy)
def m_copy(x, **k):
    x = arr(x)
    return x.copy() if isinstance(x, SArray) else x

@model(np.asmatrix, np.matrix)
def m_asmatrix(x, dtype=None):
    x = arr(x)
    if not isinstance(x, SArray): raise Unsupported('asmatrix scalar')
    g = x.fn
    if x.ndim == 1: return SArray([fixaxis(1), x.axes[0]], lambda z, j: g(j), x.kind, 'matrix')
    return SArray(x.axes, g, x.kind, 'matrix')

def shape_axes(s):
    if isinstance(s, (tuple, list)): return [toaxis(x) for x in s]
    if isinstance(s, SArray) and s.ndim == 1 and s.axes[0].kind == 'fix': return [toaxis(s.entry(i)) for i in range(s.axes[0].n)]
    return [toaxis(s)]
def dkind(dtype, default='f'):
    if dtype is None: return default
    return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}.get(np.dtype(dtype).kind, default)

def _fill(val):
    def g(shape, dtype=None, *a, **k):
        kind = dkind(dtype)
        v = t.ascond(bool(val)) if kind == 'b' else t.lift(val)
        return SArray(shape_axes(shape), lambda *ix: v, kind)
    return g
MODELS[np.zeros] = _fill(0); MODELS[np.ones] = _fill(1); MODELS[np.empty] = _fill(0)   # always symbolic: symbolic values may be stored into them

@concrete_or(np.full)
def m_full(shape, v, dtype=None):
    vv = t.lift(v)
    return SArray(shape_axes(shape), lambda *ix: vv, dkind(dtype, A.skind(v)))

@concrete_or(np.zeros_like)
def m_zl(x, dtype=None): return SArray(x.axes, lambda *ix: t.ZERO, dkind(dtype, x.kind))
@concrete_or(np.ones_like)
def m_ol(x, dtype=None): return SArray(x.axes, lambda *ix: t.ONE, dkind(dtype, x.kind))

@concrete_or(np.arange)
def m_arange(*a, **k):
    a = [concretize(x) for x in a]
    if not sym(a): return np.arange(*a, **k)
    if len(a) == 1: return arange_ax(toaxis(a[0]))
    if len(a) == 2:
        if isinstance(a[0], (int,)) and a[0] == 0: return arange_ax(toaxis(a[1]))
        lo, hi = a
        if isinstance(lo, int) and lo > 0 and isinstance(hi, Size) and not hi.neg and len(hi.pos) == 1 and hi.pos[0].kind == 'dim' and hi.pos[0].mask is None:
            return SArray([A.dimaxis(hi.pos[0].dim, lambda i: t.mkand(*[t.mknot(t.eqi(i, t.ic(k))) for k in range(lo)]))], lambda i: t.mk('idx', i), 'i')
        n = hi - lo
        ax = toaxis(n)
        if isinstance(lo, T):
            base = A.as_index(lo)
            raise Unsupported('arange with symbolic offset')
        return SArray([ax], lambda i: t.mk('idx', A.shift(position(ax, i), lo)), 'i')
    raise Unsupported('arange')

@concrete_or(np.eye)
def m_eye(n, m=None, k=0, dtype=None, **kw):
    ax = toaxis(n)
    if m is not None: A.match_axes(ax, toaxis(m))
    if k: raise Unsupported('eye offset')
    return SArray([ax, ax], lambda i, j: t.br(A.ixeq(i, j)), dkind(dtype))
MODELS[np.identity] = m_eye

@concrete_or(sp.eye)
def m_speye(n, m=None, k=0, dtype=None, format=None):
    if m is not None and not isinstance(m, Size) and not isinstance(n, Size) and m != n: raise Unsupported('eye')
    r = m_eye(n, m, k); r.storage = 'sparse'; return r
MODELS[sp.identity] = m_speye

@concrete_or(np.diag)
def m_diag(x, k=0):
    if k: raise Unsupported('diag offset')
    x = arr(x)
    if isinstance(x, np.ndarray): x = aslift(x)
    g = x.fn
    if x.ndim == 1: return SArray([x.axes[0], x.axes[0]], lambda i, j: t.mul(t.br(A.ixeq(i, j)), t.lift(g(i))), x.kind)
    return x.diagonal()

def _sparse(arg1, shape=None, dtype=None, copy=False, **kw):
    from .interp import SymRange, PyRaise
    if isinstance(arg1, tuple) and len(arg1) == 2 and isinstance(arg1[1], (tuple, list)):
        data, (I, Jx) = arg1
        data = arr(data); I = arr(I); Jx = arr(Jx)
        if not isinstance(I, SArray): I = aslift(np.atleast_1d(np.asarray(I)))
        if not isinstance(Jx, SArray): Jx = aslift(np.atleast_1d(np.asarray(Jx)))
        if not isinstance(data, SArray): raise Unsupported('scalar sparse data')
        if data.ndim == 2:
            g0 = data.fn
            if data.axes[0].isfix(1): data = SArray([data.axes[1]], lambda j: g0(0, j), data.kind)
            elif data.axes[1].isfix(1): data = SArray([data.axes[0]], lambda i: g0(i, 0), data.kind)
        ax = data.axes[0]
        A.match_axes(ax, I.axes[0]); A.match_axes(ax, Jx.axes[0])
        if shape is None:
            if A.decide_hook is not None and ax.kind != 'fix' and not A.decide_hook(A.any_over(ax, lambda i: t.TRUE)): raise PyRaise(ValueError('cannot infer dimensions from zero sized index arrays'))
            a0, a1 = infer_axis(I), infer_axis(Jx)
        else:
            a0, a1 = [toaxis(s) for s in shape]
        kind = data.kind
        d = data.fn; ri = A.idx_resolver(I, a0); rj = A.idx_resolver(Jx, a1)
        if kind == 'b':
            kind = 'i'
            if ax.kind != 'fix' and not (is_identity(ri, ax) or is_identity(rj, ax)): raise Unsupported('boolean sparse with duplicates')
        return SArray([a0, a1], lambda i, j: A.sum_over(ax, lambda k: t.mul(t.br(t.mkand(A.ixeq(ri(k), i), A.ixeq(rj(k), j))), t.lift(d(k)))), kind, 'sparse')
    if isinstance(arg1, tuple) and len(arg1) == 2:
        a0, a1 = [toaxis(s) for s in arg1]
        return SArray([a0, a1], lambda i, j: t.ZERO, dkind(dtype), 'sparse')
    x = arr(arg1)
    if isinstance(x, SArray):
        g = x.fn
        if x.ndim == 1: return SArray([fixaxis(1), x.axes[0]], lambda z, j: g(j), x.kind, 'sparse')
        return SArray(x.axes, g, x.kind, 'sparse')
    raise Unsupported('sparse(%r)' % (type(arg1),))
for _c in (sp.csr_matrix, sp.csc_matrix, sp.coo_matrix, sp.lil_matrix, sp.dok_matrix):
    concrete_or(_c)(_sparse)

def is_identity(r, ax):
    for wrap, p in A.axis_blocks(ax):
        if p.kind == 'fix': return False
        v = t.fresh(p.dim)
        x = r(wrap(v))
        if x is not v: return False
    return True

def infer_axis(I):
    ax = I.axes[0]
    if ax.kind == 'fix':
        if all(I.entry(i) is t.mk('idx', t.ic(i)) or I.entry(i) is t.q(i) for i in range(ax.n)): return ax
        raise Unsupported('sparse shape inference')
    for wrap, p in A.axis_blocks(ax):
        if p.kind == 'fix':
            for k in range(p.n):
                if A.as_index(I.entry(wrap(k))) is not position(ax, wrap(k)): raise Unsupported('sparse shape inference')
            continue
        v = t.fresh(p.dim)
        if A.as_index(I.entry(wrap(v))) is not position(ax, wrap(v)): raise Unsupported('sparse shape inference')
    return ax

@concrete_or(sp.spdiags)
def m_spdiags(d, k, m, n, format=None):
    d = arr(d)
    if k != 0 and not (hasattr(k, '__len__') and list(k) == [0]): raise Unsupported('spdiags offset')
    if d.ndim == 2:
        g0 = d.fn; d = SArray([d.axes[1]], lambda i: g0(0, i), d.kind)
    a0, a1 = toaxis(m), toaxis(n)
    A.match_axes(a0, a1); A.match_axes(a0, d.axes[0])
    g = d.fn
    return SArray([a0, a1], lambda i, j: t.mul(t.br(A.ixeq(i, j)), t.lift(g(i))), d.kind, 'sparse')
@concrete_or(sp.diags)
def m_diags(d, offsets=0, shape=None, format=None, dtype=None):
    d = arr(d)
    return m_spdiags(d, 0, d.shape[0], d.shape[0])

def _block(xs, axis, sparse, fmt=None):
    ys = []
    for x in xs:
        y = arr(x)
        if sparse and isinstance(y, SArray) and y.ndim == 1:
            g = y.fn; y = SArray([fixaxis(1), y.axes[0]], (lambda g: lambda z, j: g(j))(g), y.kind)
        if sparse and (isinstance(y, (t.T, int, float, complex)) or isinstance(y, SArray) and y.ndim == 0):
            from .interp import PyRaise
            raise PyRaise(ValueError('scipy sparse array classes do not support instantiation from a scalar'))
        if not isinstance(y, SArray): raise Unsupported('stack of scalars')
        ys.append(y)
    if sparse and all(isinstance(arr(x), SArray) and arr(x).ndim == 2 and arr(x).storage != 'sparse' for x in xs):
        from .interp import PyRaise
        raise PyRaise(ValueError('blocks must be 2-D, and some must be sparse'))
    r = A.concat(ys, axis)
    if sparse: r.storage = 'sparse'
    return r
@concrete_or(sp.vstack)
def m_spv(xs, format=None, dtype=None): return _block([x for x in _items(xs)], 0, True)
@concrete_or(sp.hstack)
def m_sph(xs, format=None, dtype=None): return _block([x for x in _items(xs)], 1, True)
def _items(xs):
    if isinstance(xs, SArray): raise Unsupported('stack of array')
    return [x for x in xs if x is not None]

@model(sp.issparse)
def m_issparse(x):
    if isinstance(x, SArray): return x.storage == 'sparse'
    return sp.issparse(x)
MODELS[sp.isspmatrix] = m_issparse

# ---- elementwise ---------------------------------------------------------------
def ew(f, kindf=None):
    def g(x, *a, **k):
        if isinstance(x, Size): x = x.to_T()
        if isinstance(x, (list, tuple)): x = m_array(x)
        if isinstance(x, np.ndarray): x = aslift(x)
        if isinstance(x, SArray):
            return x.map(f, kindf(x.kind) if kindf else None)
        return f(t.lift(x))
    return g
concrete_or(np.conj)(ew(t.conj))
MODELS[np.conjugate] = MODELS[np.conj]
concrete_or(np.real)(ew(t.real, lambda k: 'f'))
concrete_or(np.imag)(ew(t.imag, lambda k: 'f'))
_abs = ew(t.absv, lambda k: 'f' if k == 'c' else k)
def m_abs(x):
    r = _abs(x)
    if isinstance(r, SArray) and isinstance(x, SArray): r.absof = x, r._fn, x._fn
    return r
concrete_or(np.absolute)(m_abs)
MODELS[np.abs] = MODELS[np.absolute]
concrete_or(builtins.abs)(m_abs)
concrete_or(np.exp)(ew(t.expv, lambda k: 'c' if k == 'c' else 'f'))
concrete_or(np.sqrt)(ew(t.sqrtv))
concrete_or(np.square)(ew(lambda x: x * x))
concrete_or(np.cos)(ew(lambda x: t.real(t.expv(t.J * x))))
concrete_or(np.sin)(ew(lambda x: t.imag(t.expv(t.J * x))))
concrete_or(math.cos)(MODELS[np.cos]); concrete_or(math.sin)(MODELS[np.sin])
concrete_or(np.log)(ew(lambda x: t.fn('log', x)))
concrete_or(np.isnan)(ew(lambda x: t.FALSE, lambda k: 'b'))
concrete_or(np.isinf)(ew(lambda x: _isinf(x), lambda k: 'b'))
concrete_or(np.sign)(ew(lambda x: t.br(x > 0) - t.br(x < 0)))
concrete_or(np.negative)(ew(lambda x: -x))
def _isinf(x):
    p = t._infsign(t.norm(x)) if hasattr(t, '_infsign') else 0
    return t.TRUE if p else t.FALSE
@concrete_or(np.angle)
def m_angle(x, deg=False):
    r = ew(t.argv, lambda k: 'f')(x)
    if deg: r = r * 180 / t.PI
    return r
concrete_or(np.deg2rad)(ew(lambda x: x * t.PI / 180)); concrete_or(np.rad2deg)(ew(lambda x: x * 180 / t.PI))
def ew2(f, kind=None):
    return lambda a, b, *r, **k: A.elementwise(arr(a), arr(b), f, kind)
concrete_or(np.add)(ew2(lambda a, b: a + b)); concrete_or(np.subtract)(ew2(lambda a, b: a - b))
concrete_or(np.multiply)(ew2(lambda a, b: a * b)); concrete_or(np.divide)(ew2(lambda a, b: a / b))
concrete_or(np.power)(ew2(lambda a, b: a ** b))
concrete_or(np.arctan2)(ew2(lambda a, b: t.argv(b + t.J * a)))
concrete_or(np.maximum)(ew2(lambda a, b: t.fn('max', a, b)))
concrete_or(np.minimum)(ew2(lambda a, b: t.fn('min', a, b)))
concrete_or(np.logical_and)(lambda a, b: A.elementwise(A.astruth(arr(a)), A.astruth(arr(b)), t.mkand, 'b', raw=True))
concrete_or(np.logical_or)(lambda a, b: A.elementwise(A.astruth(arr(a)), A.astruth(arr(b)), t.mkor, 'b', raw=True))
def _lnot(a):
    a = A.astruth(arr(a))
    return ~a if isinstance(a, SArray) else t.mknot(a)
concrete_or(np.logical_not)(_lnot)

# ---- products and reductions ------------------------------------------------------
concrete_or(np.dot)(lambda a, b: A.matmul(arr(a), arr(b)))
concrete_or(np.matmul)(lambda a, b: A.matmul(arr(a), arr(b)))
concrete_or(np.outer)(lambda a, b: A.elementwise(A.reshape(arr(a), -1, 1), arr(b), t.mul))
@concrete_or(np.sum)
def m_sum(x, axis=None, **k):
    x = arr(x)
    return A.reduce_sum(x, axis) if isinstance(x, SArray) else x
@concrete_or(builtins.sum)
def m_bsum(x, start=0):
    if isinstance(x, (list, tuple)):
        r = start
        for y in x: r = y + r if isinstance(y, Size) else (t.lift(r) + y if isinstance(y, T) else r + y)
        return r
    x = arr(x)
    if isinstance(x, SArray) and x.ndim == 1:
        r = A.reduce_sum(x, None)
        return r + start if not (isinstance(start, int) and start == 0) else r
    if isinstance(x, SArray): return A.reduce_sum(x, 0)
    raise Unsupported('sum')
@concrete_or(np.any)
def m_any(x, axis=None):
    x = arr(x)
    return A.reduce_any(x, axis) if isinstance(x, SArray) else t.ascond(x)
@concrete_or(builtins.any)
def m_bany(x):
    x = arr(x)
    if isinstance(x, SArray) and x.ndim == 1: return A.reduce_any(x, None)
    if isinstance(x, SArray):
        from .interp import PyRaise
        # iterating rows: truth value of a row is ambiguous unless it has one element
        if x.axes[1].isfix(1): return A.reduce_any(x, None)
        raise PyRaise(ValueError('truth value of an array is ambiguous'))
    raise Unsupported('any')
@concrete_or(np.all)
def m_all(x, axis=None):
    x = arr(x)
    return x.all(axis) if isinstance(x, SArray) else t.ascond(x)
@concrete_or(builtins.all)
def m_ball(x):
    x = arr(x)
    if isinstance(x, SArray) and x.ndim == 1: return x.all()
    raise Unsupported('all')

@concrete_or(np.ndarray.item)
def m_item(x, *a):
    if a or not all(ax.isfix(1) for ax in x.axes): raise Unsupported('item')
    return x.entry(*[0] * x.ndim)

@concrete_or(np.linalg.norm)
def m_norm(x, ord=None, axis=None):
    x = aslift(arr(x))
    if ord in (None, 2) and x.ndim == 1: return t.sqrtv(A.reduce_sum((x * x.conj()).real))
    if ord == np.inf and x.ndim == 1:
        from .interp import PyRaise
        if A.decide_hook is not None and not A.decide_hook(A.any_over(x.axes[0], lambda i: t.TRUE)): raise PyRaise(ValueError('norm of an empty array'))
        if 'norm' in HOOK: return HOOK['norm'](x)
        return A.NormInf(x)
    raise Unsupported('norm')
MODELS[np.linalg.norm].__name__ = 'norm'

def enumvals(x):
    """the finitely many values of a term that depends only on enumerated inputs, or None"""
    vals = set()
    p = t.norm(t.lift(x))
    ins = {}
    for (sums, conds, atoms), c in p.items():
        if sums or atoms or c[1] != 0: return None
        for k in conds:
            if k.op != 'enum': ins[k] = 'b(0,1)'
            else: ins[(k.a[0], k.a[1])] = k.a[3]
    if len(ins) > 3 and any(isinstance(k, T) for k in ins) or len(ins) > 4: return None
    import itertools as _it
    keys = list(ins)
    for combo in _it.product(*[[t.Fr(v) for v in ins[k][2:-1].split(',')] for k in keys]):
        at = dict(zip(keys, combo)); tot = t.Fr(0)
        for (sums, conds, atoms), c in p.items():
            if all((at[(k.a[0], k.a[1])] == k.a[2]) if k.op == 'enum' else at[k] for k in conds): tot += c[0]
        vals.add(tot)
    return sorted(vals)
def concretize(x):
    """fork over the values of an enumerated quantity"""
    if isinstance(x, SArray) and x.size == 1: x = x.entry(*[0] * x.ndim)
    if not isinstance(x, T): return x
    vs = enumvals(x)
    if vs is None or any(v.denominator != 1 for v in vs): return x
    for v in vs[:-1]:
        if A.decide_hook(t.cmp_eq(x, t.lift(v))): return int(v)
    return int(vs[-1])
def tight_max(x):
    """largest entry of an array of positions (or 0) whose index function attains the end of its dimension"""
    best = None
    for wrap, p in A.axis_blocks(x.axes[0]):
        v = wrap(t.fresh(p.dim, 'm') if p.kind != 'fix' else 0)
        for (sums, conds, atoms), c in t.norm(t.lift(x.fn(v))).items():
            if sums or c != t.ONEC or len(atoms) != 1: return None
            (y, e), = atoms
            if y.op != 'idx' or e != 1: return None
            i = y.a[0]; off = 0
            if i.op == 'if' and i.a[0] in A._offsz: off = A._offsz[i.a[0]]; i = i.a[1][0]
            if i.op != 'if' or i.a[0] not in t.FACTS.tight: return None
            m = Size([A.dimaxis(i.dim)]) + off - 1
            if best is not None and not (isinstance(best - m, int) and best - m == 0): return None
            best = m
    return best
EXTREMES = [0]
HOOK = {}        # norm / extreme: a contract's own name for these numbers (one per content)
def extreme(x, ax, name):
    """largest (smallest) element of a real vector: attained, and no element beyond it"""
    from .interp import PyRaise
    if x.kind not in 'fi': raise Unsupported(name + ' of array')
    if not A.decide_hook(A.any_over(ax, lambda i: t.TRUE)): raise PyRaise(ValueError('maximum of an empty array'))
    if 'extreme' in HOOK:
        r = HOOK['extreme'](x, name)
        if r is not None: return r
    EXTREMES[0] += 1
    m = t.inp('%s#%d' % (name, EXTREMES[0]), ())
    path = getattr(getattr(A.decide_hook, '__self__', None), 'path', None)
    if path is None: raise Unsupported(name + ' of array')
    path.append(A.any_over(ax, lambda i: t.cmp_eq(t.lift(x.fn(i)), m)))
    path.append(t.mknot(A.any_over(ax, lambda i: t.lt0((m - t.lift(x.fn(i))) if name == 'max' else (t.lift(x.fn(i)) - m)))))
    return m
def _minmax(name):
    def g(*a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SArray) and x.ndim == 1 and not k:
                from .interp import PyRaise
                ax = x.axes[0]
                if ax.kind == 'fix':
                    if not ax.n: raise PyRaise(ValueError('maximum of an empty array'))
                    return g(*[x.entry(i) for i in range(ax.n)])
                if name == 'max':
                    m = tight_max(x)
                    if m is not None: return m
                    of = getattr(x, 'absof', None)
                    if of is not None and of[1] is x._fn and of[2] is of[0]._fn and x.kind == 'f':
                        if not A.decide_hook(A.any_over(ax, lambda i: t.TRUE)): raise PyRaise(ValueError('maximum of an empty array'))
                        return A.NormInf(of[0])
                vals = set()
                for wrap, p in A.axis_blocks(ax):
                    vs = enumvals(x.fn(wrap(t.fresh(p.dim, 'm') if p.kind != 'fix' else 0)))
                    if vs is None: return extreme(x, ax, name)
                    vals |= set(vs)
                if not A.decide_hook(A.any_over(ax, lambda i: t.TRUE)): raise PyRaise(ValueError('maximum of an empty array'))
                vs = sorted(vals, reverse=name == 'max')
                from . import solve
                path = getattr(getattr(A.decide_hook, '__self__', None), 'path', [])
                vs = [v for v in vs if solve.implied(path, A.any_over(ax, lambda i: t.cmp_eq(x.fn(i), t.lift(v)))) is not False] or vs
                for v in vs:
                    if v is vs[-1] or A.decide_hook(A.any_over(ax, lambda i: t.cmp_eq(x.fn(i), t.lift(v)))): return int(v) if v.denominator == 1 else t.lift(v)
            if isinstance(x, (list, tuple)): x = [y.entry(0) if isinstance(y, SArray) and y.ndim == 1 and y.axes[0].isfix(1) else y.item() if isinstance(y, np.ndarray) and y.shape == (1,) else y for y in x]
            if isinstance(x, (list, tuple)) and not any(isinstance(y, (SArray, np.ndarray)) for y in x): a = tuple(x)
            else: raise Unsupported(name + ' of array')
        r = None
        if name == 'max' and any(isinstance(y, A.NormInf) for y in a):
            zero = [y for y in a if not isinstance(y, A.NormInf)]
            if all(isinstance(y, (int, float)) and y == 0 for y in zero): return A.NormInf(*[z for y in a if isinstance(y, A.NormInf) for z in y.arrs])
        for y in a:
            if isinstance(y, Size):
                if r is None: r = y; continue
                if isinstance(r, Size) and isinstance(r == y, bool): continue
            if isinstance(y, SArray): raise Unsupported(name)
            r = t.lift(y.to_T() if isinstance(y, Size) else y) if r is None else t.fn(name, r.to_T() if isinstance(r, Size) else r, y.to_T() if isinstance(y, Size) else y)
        return r
    return g
concrete_or(builtins.max)(_minmax('max')); concrete_or(builtins.min)(_minmax('min'))
concrete_or(np.max)(_minmax('max')); concrete_or(np.min)(_minmax('min'))
MODELS[np.amax] = MODELS[np.max]; MODELS[np.amin] = MODELS[np.min]

# ---- linear solvers: the returned x is arbitrary with A x = b (assumed contract) ----------
class Solve(object):
    """ghost record of a solver call"""
    n = 0
    def __init__(self, M, b, trans=False):
        Solve.n += 1
        self.A = M; self.b = b; self.kind = 'c' if 'c' in (M.kind, b.kind) else 'f'
        A.match_axes(M.axes[0], M.axes[1] if False else M.axes[0]); A.match_axes(M.axes[0], b.axes[0])
        self.name = '$x%d' % Solve.n
        ax = [M.axes[1]] + list(b.axes[1:])
        def fn(*ix):
            nm = self.name; jx = []
            for q in ix:
                if isinstance(q, tuple): nm += '.%d' % q[0]; q = q[1]
                if isinstance(q, int): nm += '[%d]' % q
                else: jx.append(q)
            return t.inp(nm, tuple(jx), 'c' if self.kind == 'c' else 'r')
        self.x = SArray(ax, fn, self.kind)
    def residual(self, i, *k):
        """(A x - b)_i, zero by the solver's contract"""
        return t.add(A.sum_over(self.A.axes[1], lambda j: t.mul(self.A.num(i, j), self.x.num(j, *k))), t.mul(-1, self.b.num(i, *k)))
def do_solve(interp, M, b):
    M = aslift(M) if not isinstance(M, SArray) else M
    b = aslift(arr(b))
    if b.ndim == 2 and (b.axes[1].isfix(1) or b.storage == 'sparse'):
        g = b.fn; b2 = SArray([b.axes[0]], lambda i: g(i, 0), b.kind)
        s = Solve(M, b2)
    else: s = Solve(M, b)
    interp.ghost.append(s)
    return s.x.copy()
def m_spsolve(interp, M, b, *a, **k): return do_solve(interp, M, b)
m_spsolve.wants_interp = True
MODELS[spl.spsolve] = m_spsolve
def m_lsolve(interp, M, b):
    b = aslift(arr(b))
    M = aslift(M) if not isinstance(M, SArray) else M
    s = Solve(M, b); interp.ghost.append(s); return s.x.copy()
m_lsolve.wants_interp = True
MODELS[np.linalg.solve] = m_lsolve
class SymLU(object):
    __pv_model__ = True
    def __init__(self, interp, M): self.interp = interp; self.M = M
    def solve(self, b, trans='N'): return do_solve(self.interp, self.M if trans == 'N' else self.M.T, b)
def m_splu(interp, M, **k): return SymLU(interp, M)
m_splu.wants_interp = True
MODELS[spl.splu] = m_splu
def m_factorized(interp, M): return SymLU(interp, M).solve
m_factorized.wants_interp = True
MODELS[spl.factorized] = m_factorized

# ---- shapes ---------------------------------------------------------------------
@concrete_or(np.concatenate)
def m_concat(xs, axis=0): return A.concat([arr(x) for x in xs], axis)
@concrete_or(np.hstack)
def m_hstack(xs):
    xs = [arr(x) for x in xs]
    xs = [x if isinstance(x, SArray) else m_array([x]) for x in xs]
    return A.concat(xs, 0 if xs[0].ndim == 1 else 1)
@concrete_or(np.vstack)
def m_vstack(xs):
    ys = []
    for x in xs:
        x = aslift(arr(x))
        if x.ndim == 1: x = A.reshape(x, 1, -1)
        ys.append(x)
    return A.concat(ys, 0)
@concrete_or(np.column_stack)
def m_cstack(xs):
    ys = []
    for x in xs:
        x = aslift(arr(x))
        if x.ndim == 1: x = A.reshape(x, -1, 1)
        ys.append(x)
    return A.concat(ys, 1)
concrete_or(np.transpose)(lambda x: x.T)
concrete_or(np.ravel)(lambda x, *a: A.ravel(arr(x)))
concrete_or(np.reshape)(lambda x, s, **k: A.reshape(arr(x), s))
@concrete_or(np.atleast_1d)
def m_at1(x):
    x = arr(x)
    return x if isinstance(x, SArray) else m_array([x])
@concrete_or(np.flatnonzero)
def m_find(x):
    x = arr(x)
    if not isinstance(x, SArray): x = m_array([x])
    return A.find(x)
@concrete_or(np.nonzero)
def m_nonzero(x):
    x = arr(x)
    if x.ndim == 1: return (A.find(x),)
    raise Unsupported('nonzero 2-D')
@concrete_or(np.where)
def m_where(c, *a):
    c = A.astruth(arr(c))
    if not a: return m_nonzero(c)
    x, y = arr(a[0]), arr(a[1])
    if not isinstance(c, SArray): raise Unsupported('where scalar')
    cb = SArray(c.axes, lambda *ix: t.br(c.fn(*ix)), 'f')
    return cb * x + (1 - cb) * y
@concrete_or(np.ix_)
def m_ix(*a):
    xs = [aslift(arr(x)) for x in a]
    out = []
    for i, x in enumerate(xs):
        if x.kind == 'b': x = A.find(x)
        out.append(A.IxArr(x, i, len(xs)))
    return tuple(out)
@model(np.isscalar)
def m_isscalar(x):
    if isinstance(x, T): return True
    if isinstance(x, (SArray,)): return False
    if isinstance(x, Size): return True
    return np.isscalar(x)

def m_rc(kind, key):
    from .interp import SymRange, PyRaise
    if not isinstance(key, tuple): key = (key,)
    if kind == 'r' and key and isinstance(key[0], str): raise Unsupported('r_ with a string')
    if not sym(key) and not any(isinstance(k, slice) and sym((k.start, k.stop)) for k in key): return (np.r_ if kind == 'r' else np.c_)[key]
    ys = []
    for k in key:
        if isinstance(k, slice):
            if k.start is None or not sym((k.start, k.stop)) : ys.append(aslift(np.arange(k.start or 0, k.stop, k.step)) if not sym(k.stop) else m_arange(k.stop)); continue
            ys.append(m_arange(k.start, k.stop)); continue
        y = arr(k)
        if not isinstance(y, SArray): y = m_array([y]); y = aslift(y)
        if kind == 'c' and y.ndim == 1:
            g = y.fn; y = SArray([y.axes[0], fixaxis(1)], (lambda g: lambda i, z: g(i))(g), y.kind)
        ys.append(y)
    nd = max(y.ndim for y in ys)
    if kind == 'r' and nd == 2 and any(y.ndim != 2 for y in ys): raise Unsupported('r_ of 2-D')
    # empty constant arrays are neutral
    return A.concat(ys, 0 if kind == 'r' else 1)

@concrete_or(np.cumsum)
def m_cumsum(x, *a): raise Unsupported('cumsum')
@concrete_or(np.diff)
def m_diff(x):
    x = arr(x)
    if x.ndim == 1 and x.axes[0].kind == 'fix':
        es = [t.lift(x.entry(i + 1)) - x.entry(i) for i in range(x.axes[0].n - 1)]
        return m_array(es) if es else np.array([])
    raise Unsupported('diff')
@concrete_or(np.shape)
def m_shape(x):
    x = arr(x)
    return x.shape
@concrete_or(np.ndim)
def m_ndim(x):
    if isinstance(x, SArray): return x.ndim
    if isinstance(x, (T, Size)): return 0
    return arr(x).ndim
@concrete_or(np.argsort)
def m_argsort(x, axis=-1, kind=None, **k): return A.argsort(arr(x))
@concrete_or(np.delete)
def m_delete(x, i, axis=None):
    """the elements of a vector other than those at the given positions, in order"""
    x = arr(x); i = arr(i)
    if axis is not None or not isinstance(x, SArray) or x.ndim != 1 or not isinstance(i, SArray) or i.ndim != 1: raise Unsupported('delete')
    ax = x.axes[0]
    def hit(k):
        # is k one of the positions?
        out = []
        def at(j):
            try: r = A.resolve(A.as_index(i.entry(j)), ax, A.path_now())
            except Unsupported as e: raise Unsupported('delete: ' + str(e))
            return A.ixeq(r, k)
        return A.any_over(i.axes[0], at)
    parts = ax.parts if ax.kind == 'cat' else [ax]
    keep = []
    for b, p in enumerate(parts):
        wrap = (lambda k, b=b: (b, k)) if ax.kind == 'cat' else (lambda k: k)
        if p.kind != 'dim': raise Unsupported('delete from ' + p.kind)
        v = t.iv('$', p.dim)
        gone = hit(wrap(v))
        n = t.normc(gone)
        if n == t.pconst(1): continue
        keep.append((wrap, p if not n else dimaxis(p.dim, lambda k, p=p, wrap=wrap: t.mkand(p.cond(k), t.mknot(hit(wrap(k)))))))
    if not keep: return SArray([fixaxis(0)], lambda k: t.ZERO, x.kind)
    if len(keep) == 1: return SArray([keep[0][1]], lambda k: x.entry(keep[0][0](k)), x.kind)
    return SArray([A.cataxis([q for _, q in keep])], lambda k: x.entry(keep[k[0]][0](k[1])), x.kind)
@concrete_or(np.unique)
def m_unique(x, **k): raise Unsupported('unique')

@concrete_or(np.polyval)
def m_polyval(p, x):
    p = arr(p)
    if p.axes[0].kind != 'fix': raise Unsupported('polyval')
    r = 0
    for i in range(p.axes[0].n): r = r * x + p.entry(i)
    return r

# ---- builtins --------------------------------------------------------------------
@model(builtins.len)
def m_len(x):
    from .interp import SymRange, SymList, PyRaise
    if isinstance(x, SArray): return A.size_of(x.axes[0])
    if isinstance(x, SymList): return A.size_of(x.ax)
    if isinstance(x, SymRange): return A.size_of(x.ax)
    if isinstance(x, (T, Size)): raise PyRaise(TypeError('len() of scalar'))
    try: return len(x)
    except TypeError as e: raise PyRaise(e)
@concrete_or(builtins.range)
def m_range(*a):
    from .interp import SymRange, PyRaise
    a = [concretize(x) for x in a]
    a = [int(x.a[0]) if isinstance(x, T) and x.op == 'q' else x for x in a]
    if not sym(a): return range(*a)
    if len(a) == 2 and isinstance(a[0], int) and a[0] == 0: a = a[1:]
    if len(a) == 1: return SymRange(toaxis(a[0]))
    r = m_arange(*a)
    return r
@concrete_or(builtins.list)
def m_list(x=()):
    from .interp import SymRange, SArray as _S
    if isinstance(x, SymRange): return arange_ax(x.ax)
    if isinstance(x, SArray):
        if x.axes[0].kind == 'fix' and x.ndim == 1: return [x.entry(i) for i in range(x.axes[0].n)]
        return x
    return list(x)
concrete_or(builtins.tuple)(lambda x=(): tuple(x) if not isinstance(x, SArray) else m_list(x))
@concrete_or(builtins.enumerate)
def m_enum(x, start=0):
    from .interp import SymRange, PyRaise
    if isinstance(x, SArray) and x.axes[0].kind == 'fix': return [(i + start, x.entry(i)) for i in range(x.axes[0].n)]
    if isinstance(x, SymRange) or isinstance(x, SArray):
        if start: raise Unsupported('enumerate start')
        ax = x.ax if isinstance(x, SymRange) else x.axes[0]
        it = x.item if isinstance(x, SymRange) else (lambda ix: x.entry(ix) if x.ndim == 1 else A.getitem(x, position(ax, ix)))
        return SymRange(ax, lambda ix: (t.mk('idx', position(ax, ix)), it(ix)))
    return list(enumerate(x, start))
@concrete_or(builtins.zip)
def m_zip(*xs):
    from .interp import SymRange, PyRaise
    if any(isinstance(x, (SArray, SymRange)) for x in xs):
        ys = [arr(x) for x in xs]
        ax = ys[0].axes[0]
        for y in ys[1:]: A.match_axes(ax, y.axes[0])
        if ax.kind == 'fix': return [tuple(y.entry(i) for y in ys) for i in range(ax.n)]
        return SymRange(ax, lambda ix: tuple(y.entry(ix) for y in ys))
    return list(zip(*xs))
@concrete_or(builtins.int)
def m_int(x=0, *a):
    if isinstance(x, Size): return x
    if isinstance(x, T):
        if x.op == 'q': return int(x.a[0])
        if x.op in t.COND: return 1 if A.decide_hook(x) else 0
        p = t.norm(x)
        if isint(p): return concretize(x)
        raise Unsupported('int() of a real')
    if isinstance(x, SArray) and x.size == 1: return m_int(x.entry(*[0] * x.ndim))
    raise Unsupported('int()')
def isint(p):
    for (sums, conds, atoms), c in p.items():
        if c[1] != 0 or c[0].denominator != 1: return False
        for x, e in atoms:
            if x.op in ('idx',): continue
            if x.op == 'in' and x.a[2].startswith('e('): continue
            return False
    return True
@concrete_or(builtins.float)
def m_float(x=0.0):
    if isinstance(x, Size): return x.to_T()
    if isinstance(x, T): return t.lift(x)
    raise Unsupported('float()')
@concrete_or(builtins.bool)
def m_bool(x=False):
    return t.ascond(x) if isinstance(x, T) else (x.nonempty() if hasattr(x, 'nonempty') else A.decide_hook(t.ascond(x)))
@concrete_or(builtins.complex)
def m_complex(a, b=0): return t.lift(a) + t.J * t.lift(b)
@concrete_or(builtins.round)
def m_round(x, n=0): raise Unsupported('round')
concrete_or(builtins.sorted)(lambda x, **k: (_ for _ in ()).throw(Unsupported('sorted')))
@model(builtins.print)
def m_print(*a, **k): return None
@model(builtins.isinstance)
def m_isinstance(x, ty):
    ts = ty if isinstance(ty, tuple) else (ty,)
    if isinstance(x, SArray):
        for c in ts:
            if c is np.ndarray and x.storage in ('dense', 'matrix'): return True
            if c is np.matrix and x.storage == 'matrix': return True
            if x.storage == 'sparse' and isinstance(c, type) and (issubclass(sp.csr_matrix, c) or c.__module__.startswith('scipy')) and c is not object: return True
        return False
    if isinstance(x, (T,)):
        k = A.skind(x)
        return any(c in (float, np.floating, np.float64, object) and k in 'fi' or c in (int, np.integer) and k == 'i' or c is complex and k == 'c' or c in (bool, np.bool_) and k == 'b' for c in ts)
    if isinstance(x, Size): return any(c is int for c in ts)
    return isinstance(x, ty)
@model(builtins.type)
def m_type(x):
    if isinstance(x, SArray): return np.ndarray
    return type(x)
@model(builtins.callable)
def m_callable(x): return callable(x)
@model(builtins.hasattr)
def m_hasattr(x, n):
    if isinstance(x, SArray): return hasattr(sp.csr_matrix, n) if x.storage == 'sparse' else hasattr(np.ndarray, n)
    return hasattr(x, n)
@model(builtins.getattr)
def m_getattr(x, n, *d): return getattr(x, n, *d)
@concrete_or(builtins.str)
def m_str(x=''): return '<formatted>'
concrete_or(builtins.repr)(m_str)
@concrete_or(builtins.dict)
def m_dict(*a, **k): return dict(*a, **k)
@concrete_or(builtins.set)
def m_set(x=()): return set(x)
from copy import deepcopy as _dc, copy as _cp
@model(_dc)
def m_deepcopy(x, memo=None): return _deep(x, {})
def _deep(x, memo):
    if id(x) in memo: return memo[id(x)]
    if isinstance(x, SArray): r = x.copy()
    elif isinstance(x, dict):
        r = memo[id(x)] = {}
        for k, v in x.items(): r[k] = _deep(v, memo)
        return r
    elif isinstance(x, list):
        r = memo[id(x)] = []
        r.extend(_deep(v, memo) for v in x); return r
    elif isinstance(x, tuple): r = tuple(_deep(v, memo) for v in x)
    elif isinstance(x, (T, Size)): r = x
    elif isinstance(x, (np.ndarray,)) or hasattr(x, 'tocoo'): r = x.copy()
    else: r = _dc(x)
    memo[id(x)] = r
    return r
@model(_cp)
def m_shallow(x):
    if isinstance(x, SArray): return x.copy()
    return _cp(x)

@concrete_or(builtins.pow)
def m_pow(a, b, *m):
    if m: raise Unsupported('pow with modulus')
    return (arr(a) if isinstance(a, (SArray, np.ndarray)) else a) ** (aslift(b) if isinstance(b, (SArray, np.ndarray)) else b)

@concrete_or(np.cumsum)
def m_cumsum(x, axis=None):
    x = arr(x)
    if x.ndim == 1 and x.axes[0].kind == 'fix':
        out = []; c = t.ZERO
        for i in range(x.axes[0].n):
            c = c + t.lift(x.entry(i)); out.append(c)
        return SArray([x.axes[0]], lambda i: out[i], 'i' if x.kind == 'b' else x.kind)
    raise Unsupported('cumsum')
@concrete_or(np.isin)
def m_isin(x, y, **k):
    x = arr(x); y = arr(y)
    if k or not isinstance(x, SArray) or not isinstance(y, SArray) or y.ndim != 1: raise Unsupported('isin')
    f, g = x.fn, y.fn
    return SArray(x.axes, lambda *ix: A.any_over(y.axes[0], lambda j: t.cmp_eq(t.lift(f(*ix)), t.lift(g(j)))), 'b')
if hasattr(np, 'in1d'): MODELS[np.in1d] = MODELS[np.isin]
