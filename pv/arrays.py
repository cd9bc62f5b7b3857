"""Symbolic arrays: shape = axes of arbitrary (symbolic) size, content = a
function from index terms to scalar terms.  Sparse matrices differ from dense
arrays only in the meaning of `*`, of indexing and of reductions."""
import itertools
import numpy as np
from . import terms as t
from .terms import T, Unsupported, Fr

_uid = itertools.count()

class ShapeError(Exception):
    """the real code would raise here"""

# ---- axes ------------------------------------------------------------------
class Axis(object):
    __slots__ = ('kind', 'n', 'dim', 'mask', 'parts', '_key')
    def __init__(self, kind, n=None, dim=None, mask=None, parts=None):
        self.kind = kind; self.n = n; self.dim = dim; self.mask = mask; self.parts = parts; self._key = None
    def key(self):
        if self._key is None:
            if self.kind == 'fix': self._key = ('fix', self.n)
            elif self.kind == 'dim':
                self._key = ('dim', self.dim, None if self.mask is None else t.polyT(t.normc(self.mask(t.iv('$', self.dim)))).s())
            else: self._key = ('cat',) + tuple(p.key() for p in self.parts)
        return self._key
    def same(self, o):
        return self is o or self.key() == o.key()
    def cond(self, ix):
        """membership condition of an index value"""
        if self.kind == 'dim': return t.TRUE if self.mask is None else t.ascond(self.mask(ix))
        if self.kind == 'cat': return self.parts[ix[0]].cond(ix[1])
        return t.TRUE
    def isfix(self, n=None):
        return self.kind == 'fix' and (n is None or self.n == n)
    def __repr__(self):
        return str(self.key())

def dimaxis(dim, mask=None): return Axis('dim', dim=dim, mask=mask)
def fixaxis(n): return Axis('fix', n=int(n))
def cataxis(parts):
    out = []
    for p in parts:
        if p.kind == 'cat': out.extend(p.parts)
        elif p.kind == 'fix' and p.n == 0: continue
        elif p.kind == 'fix' and out and out[-1].kind == 'fix': out[-1] = fixaxis(out[-1].n + p.n)
        else: out.append(p)
    if not out: return fixaxis(0)
    if len(out) == 1: return out[0]
    return Axis('cat', parts=out)

def axis_blocks(ax):
    """list of (wrap, subaxis) for leaves"""
    if ax.kind == 'cat': return [((lambda ix, b=b: (b, ix)), p) for b, p in enumerate(ax.parts)]
    return [((lambda ix: ix), ax)]

def sum_over(ax, f):
    """scalar term: sum of f over the axis"""
    out = []
    for wrap, p in axis_blocks(ax):
        if p.kind == 'fix':
            for i in range(p.n): out.append(f(wrap(i)))
        else:
            v = t.fresh(p.dim)
            b = f(wrap(v))
            c = p.cond(v)
            out.append(t.sumover(v, t.mul(t.br(c), b) if c is not t.TRUE else b))
    return t.add(*out) if out else t.ZERO

def any_over(ax, f):
    out = []
    for wrap, p in axis_blocks(ax):
        if p.kind == 'fix':
            for i in range(p.n): out.append(t.ascond(f(wrap(i))))
        else:
            v = t.fresh(p.dim)
            out.append(t.mkex(v, t.mkand(p.cond(v), t.ascond(f(wrap(v))))))
    return t.mkor(*out) if out else t.FALSE

def generic_index(ax, hint='i'):
    """list of (index value, axis condition) covering the axis"""
    out = []
    for wrap, p in axis_blocks(ax):
        if p.kind == 'fix':
            out.extend((wrap(i), t.TRUE) for i in range(p.n))
        else:
            v = t.iv(hint, p.dim)
            out.append((wrap(v), p.cond(v)))
    return out

# numeric enumeration of an axis under a valuation
def ev_axis(ax, env, b=None):
    b = b or {}
    out = []
    for wrap, p in axis_blocks(ax):
        if p.kind == 'fix':
            out.extend((wrap(i), {}) for i in range(p.n))
        else:
            v = t.iv('%' + p.dim, p.dim)
            c = p.cond(v)
            for k in range(env.sizes[p.dim]):
                b2 = dict(b); b2[v] = k
                if t.ev(c, env, b2):
                    out.append((wrap(t.ic(k)), {}))
    return out

# ---- sizes -----------------------------------------------------------------
class NoEntry(Exception):
    """an entry of an empty selection was asked for (an axis known to be empty)"""
class Size(object):
    """length of an axis (or a linear combination of lengths)"""
    def __init__(self, pos, neg=()):
        self.pos = list(pos); self.neg = list(neg)
        self._cancel()
    def _cancel(self):
        c = sum(p.n for p in self.pos if p.kind == 'fix') - sum(p.n for p in self.neg if p.kind == 'fix')
        lastfix = next((i for i in range(len(self.pos) - 1, -1, -1) if self.pos[i].kind == 'fix'), None)
        pos = []
        for p in self.pos:
            if p.kind == 'cat': pos.extend(p.parts)
            else: pos.append(p)
        neg = []
        for p in self.neg:
            if p.kind == 'cat': neg.extend(p.parts)
            else: neg.append(p)
        anyneg = False
        for n in list(neg):
            for i in range(len(pos) - 1, -1, -1):
                if pos[i].kind != 'fix' and n.kind != 'fix' and pos[i].same(n):
                    del pos[i]; neg.remove(n); break
        if neg and pos:
            # lengths that the conditions of the path make equal
            for n in list(neg):
                for i in range(len(pos) - 1, -1, -1):
                    if pos[i].kind == n.kind == 'dim' and pos[i].dim == n.dim and mask_equiv(pos[i], n):
                        del pos[i]; neg.remove(n); break
        c = sum(p.n for p in pos if p.kind == 'fix')
        cn = sum(p.n for p in neg if p.kind == 'fix')
        if cn:
            neg = [p for p in neg if p.kind != 'fix']
            # take away from the last fixed parts
            left = cn
            for i in range(len(pos) - 1, -1, -1):
                if pos[i].kind == 'fix' and left:
                    k = min(pos[i].n, left); left -= k
                    pos[i] = fixaxis(pos[i].n - k)
            if left: neg.append(fixaxis(left))
        self.pos = [p for p in pos if not p.isfix(0)]
        self.neg = [p for p in neg if not p.isfix(0)]
    def simp(self):
        if not self.neg and all(p.kind == 'fix' for p in self.pos): return sum(p.n for p in self.pos)
        if not self.pos and all(p.kind == 'fix' for p in self.neg): return -sum(p.n for p in self.neg)
        return self
    def axis(self):
        if self.neg: raise Unsupported('axis of a difference of sizes')
        return cataxis(self.pos)
    def to_T(self):
        f = lambda ax: sum_over(ax, lambda i: t.ONE) if ax.kind != 'fix' else t.q(ax.n)
        return t.add(*([f(p) for p in self.pos] + [t.mul(-1, f(p)) for p in self.neg] + [t.ZERO]))
    def key(self):
        return (tuple(sorted(map(str, (p.key() for p in self.pos)))), tuple(sorted(map(str, (p.key() for p in self.neg)))))
    def nonempty(self):
        if self.neg: raise Unsupported('truth of size difference')
        return any_over(cataxis(self.pos), lambda i: t.TRUE)
    def __add__(self, o):
        if isinstance(o, Size): return Size(self.pos + o.pos, self.neg + o.neg).simp()
        if isinstance(o, (int, np.integer)): return Size(self.pos + ([fixaxis(o)] if o > 0 else []), self.neg + ([fixaxis(-o)] if o < 0 else [])).simp()
        if isinstance(o, SArray): return o.__radd__(self)
        return t.add(self.to_T(), o)
    def __radd__(self, o):
        if isinstance(o, Size): return o + self
        if isinstance(o, (int, np.integer)): return Size(([fixaxis(o)] if o > 0 else []) + self.pos, self.neg + ([fixaxis(-o)] if o < 0 else [])).simp()
        return t.add(o, self.to_T())
    def __sub__(self, o):
        if isinstance(o, Size): return Size(self.pos + o.neg, self.neg + o.pos).simp()
        if isinstance(o, (int, np.integer)): return self + (-o)
        return t.add(self.to_T(), t.mul(-1, o))
    def __rsub__(self, o):
        if isinstance(o, (int, np.integer)): return Size(([fixaxis(o)] if o > 0 else []) + self.neg, self.pos).simp()
        return t.add(o, t.mul(-1, self.to_T()))
    def __mul__(self, o):
        if isinstance(o, (int, np.integer)) and o >= 0: return Size(self.pos * int(o), self.neg * int(o)).simp()
        if isinstance(o, SArray): return o.__rmul__(self)
        return t.mul(self.to_T(), o)
    __rmul__ = __mul__
    def half(self):
        """half of the size when the parts pair up, else None"""
        def h(ps):
            out = []; ps = list(ps)
            while ps:
                p = ps.pop(0)
                for k, r in enumerate(ps):
                    if p.same(r): out.append(p); del ps[k]; break
                else:
                    if p.kind == 'fix' and p.n % 2 == 0: out.append(fixaxis(p.n // 2))
                    else: return None
            return out
        a, b = h(self.pos), h(self.neg)
        return None if a is None or b is None else Size(a, b).simp()
    def __truediv__(self, o):
        if isinstance(o, (int, np.integer)) and o == 2:
            r = self.half()
            if r is not None: return r
        return t.mul(self.to_T(), t.power(t.lift(o), -1))
    def __rtruediv__(self, o): return t.mul(o, t.power(self.to_T(), -1))
    def __eq__(self, o):
        d = self - o
        if isinstance(d, int): return d == 0
        if isinstance(d, Size):
            if not d.neg: return t.mknot(d.nonempty())
            if not d.pos: return t.mknot(Size(d.neg).nonempty())
        return t.eq0(t.lift(d))
    def __ne__(self, o):
        r = self.__eq__(o)
        return t.mknot(r) if isinstance(r, T) else not r
    __hash__ = None
    def __lt__(self, o): return _szlt(self, o)
    def __gt__(self, o): return _szlt(o, self)
    def __le__(self, o): return _cnot(_szlt(o, self))
    def __ge__(self, o): return _cnot(_szlt(self, o))
    def __or__(self, o):
        d = self - o if isinstance(o, (int, Size)) and not isinstance(o, bool) else None
        if isinstance(d, int) and d == 0: return self            # n | n
        raise Unsupported('bitwise or of lengths')
    __ror__ = __or__
    def __repr__(self): return 'Size(%s;%s)' % (self.pos, self.neg)
    def __neg__(self): return 0 - self

def _cnot(c): return t.mknot(c) if isinstance(c, T) else not c
def _szlt(a, b):
    d = b - a          # a < b  <=>  d > 0
    if isinstance(d, int): return d > 0
    if isinstance(d, Size):
        if not d.neg: return d.nonempty()
        if not d.pos: return False
        if len(d.neg) == 1 and d.neg[0].kind == 'fix' and d.neg[0].n >= 1 and len(d.pos) >= 1 and False: pass
    return t.lt0(t.mul(-1, t.lift(d)))

def size_of(ax):
    return ax.n if ax.kind == 'fix' else Size([ax])

def toaxis(n):
    if isinstance(n, Axis): return n
    if isinstance(n, Size): return n.axis()
    if isinstance(n, (int, np.integer)): return fixaxis(n)
    if isinstance(n, T) and n.op == 'q' and n.a[0].denominator == 1: return fixaxis(int(n.a[0]))
    if isinstance(n, T) and n.op == 'br': return fixaxis(1 if decide_hook(n.a[0]) else 0)
    raise Unsupported('axis from %r' % (n,))

def ev_size(s, env):
    if isinstance(s, int): return s
    return int(round(t.ev(s.to_T(), env, {}).real if not isinstance(t.ev(s.to_T(), env, {}), float) else t.ev(s.to_T(), env, {})))

# ---- positions in axes as index terms --------------------------------------
_ranks = {}     # axis key -> name
_rankax = {}    # name -> Axis
def canon_mask(ax):
    """(key, free index variables, mask over '$' with placeholders, placeholders)"""
    r = _cmemo.get(id(ax))
    if r is not None: return r[1:]
    body = ax.cond(t.iv('$', ax.dim))
    fvs = sorted((x for x in t.polyT(t.normc(body)).fv() if x.a[0] != '$'), key=lambda x: x.a[0])
    ph = [t.iv('$f%d' % i, x.dim) for i, x in enumerate(fvs)]
    mb = t.subst(body, dict(zip(fvs, ph))) if fvs else body
    key = (ax.dim, t.polyT(t.normc(mb)).s())
    _cmemo[id(ax)] = (ax, key, fvs, mb, ph)
    return key, fvs, mb, ph
_cmemo = {}
def position(ax, ix):
    """index term standing for the integer position of index value ix in axis ax"""
    if ax.kind == 'fix': return t.ic(ix)
    if ax.kind == 'dim' and ax.mask is None: return ix
    if ax.kind == 'dim':
        key, fvs, mb, ph = canon_mask(ax)
        nm = _ranks.get(key)
        if nm is None:
            nm = _ranks[key] = 'rank#%d' % len(_ranks)
            _rankax[nm] = key
            def rank(env, k, *args):
                n = 0
                v = t.iv('$', ax.dim)
                b = dict(zip(ph, args))
                for i in range(k):
                    b[v] = i
                    if t.ev(mb, env, dict(b)): n += 1
                return n
            t.IREG[nm] = rank
            t.FACTS.injective.add(nm)
        return t.ifun(nm, (ix,) + tuple(fvs), 'pos:' + nm)
    b, inner = ix
    off = Size(ax.parts[:b]).simp() if b else 0
    return shift(position(ax.parts[b], inner), off)

_offs = {}
_offsz = {}
_sorts = {}      # (axis key, keys sorted) -> name of the permutation
_sortax = {}     # name -> axis key
_sortkey = {}; _sortmask = {}
def argsort(x):
    """positions that sort x: an arbitrary permutation of its axis under which x does not decrease"""
    ax = x.axes[0]
    if x.ndim != 1 or ax.kind != 'dim': raise Unsupported('argsort')
    v = t.iv('$', ax.dim); f = x.fn
    key = canon_mask(ax)[0]
    if canon_mask(ax)[1]: raise Unsupported('argsort of a dependent axis')
    e = t.lift(f(v))
    if e.op == 'idx':
        i = e.a[0]
        if i.op == 'if' and i.a[0] in _rankax: i = i.a[1][0]
        if i.op == 'if' and i.a[0] in _sortax and _sortax[i.a[0]] == key and i.a[1] == (v,):      # the argsort of a permutation is its inverse
            nm = t.INVERSE[i.a[0]]
            return SArray([ax], lambda k: t.mk('idx', position(ax, t.ifun(nm, (k,), ax.dim))), 'i')
    if e.fv() - {v}: raise Unsupported('argsort of a dependent array')
    e = t.mul(t.br(ax.cond(v)), e)          # only the entries of the axis count
    kk = (key, t.polyT(t.norm(e)).s())
    nm = _sorts.get(kk)
    if nm is None:
        # the same keys under the conditions of the path
        from . import solve
        path = getattr(getattr(decide_hook, '__self__', None), 'path', [])
        for (k2, _), n2 in _sorts.items():
            if k2 == key and solve.is_zero(t.add(e, t.mul(-1, _sortkey[n2])), path, ivs=(v,)): nm = n2; break
    if nm is None:
        nm = _sorts[kk] = 'argsort#%d' % len(_sorts); inv = nm + '~'
        t.INVERSE[nm] = inv; t.INVERSE[inv] = nm; _sortax[nm] = key; _sortkey[nm] = e; _sortmask[nm] = _sortmask[inv] = (v, ax.cond(v))
        body = ax.cond(v)
        def perm(env, k, back=False):
            on = [i for i in range(env.sizes[ax.dim]) if t.ev(body, env, {v: i})]
            by = [on[j] for j in np.argsort([float(t.ev(e, env, {v: i})) for i in on])]
            if k not in on: return k
            return on[by.index(k)] if back else by[on.index(k)]
        t.IREG[nm] = perm; t.IREG[inv] = lambda env, k: perm(env, k, True)
    t.FACTS.injective |= {nm, nm + '~'}
    return SArray([ax], lambda k: t.mk('idx', position(ax, t.ifun(nm, (k,), ax.dim))), 'i')

PATH = []        # conditions to use where no path is being explored
def path_now():
    if PATH: return PATH[-1]
    return getattr(getattr(decide_hook, '__self__', None), 'path', None)
_meq = {}
def mask_equiv(x, y, path=None):
    """do the conditions of the path make two masked axes of one dimension the same set?"""
    if x.kind == y.kind == 'cat' and len(x.parts) == len(y.parts): return all(a.same(b) or mask_equiv(a, b, path) for a, b in zip(x.parts, y.parts))
    if NAMED_MODE and 'fix' in (x.kind, y.kind) and x.kind != y.kind:
        # nothing against a selection that is known to be empty
        a, b = (x, y) if x.kind == 'fix' else (y, x)
        return a.n == 0 and b.kind in ('dim', 'cat') and known_zero(Size([b]))
    if x.kind != 'dim' or y.kind != 'dim' or x.dim != y.dim: return False
    if x.same(y): return True
    from . import solve
    if path is None: path = path_now()
    if path is None: return False
    key = (tuple(c.id for c in path), repr(x.key()), repr(y.key()))
    r = _meq.get(key)
    if r is None:
        d = any_over(dimaxis(x.dim), lambda i: t.mkor(t.mkand(x.cond(i), t.mknot(y.cond(i))), t.mkand(y.cond(i), t.mknot(x.cond(i)))))
        r = _meq[key] = (path[:], d is t.FALSE or solve.implied(path, d) is False)
    return r[1]

def shift(i, off):
    """index term i + off"""
    if isinstance(off, int) and off == 0: return i
    if i.op == 'ic' and isinstance(off, int): return t.ic(i.a[0] + off)
    if i.op == 'if' and i.a[0] in _offsz:
        o2 = _offsz[i.a[0]] + off
        return shift(i.a[1][0], o2)
    key = off.key() if isinstance(off, Size) else ('int', off)
    nm = _offs.get(key)
    if nm is None:
        nm = _offs[key] = 'off#%d' % len(_offs)
        if isinstance(off, int): t.OFFS[nm] = off
        _offsz[nm] = off
        t.IREG[nm] = lambda env, k, off=off: k + ev_size(off, env)
        t.FACTS.injective.add(nm)
    return t.ifun(nm, (i,), 'off:' + nm)

def register_index_facts():
    for nm in list(_rankax) + list(_offsz): t.FACTS.injective.add(nm)

def resolve(i, ax, path=None):
    """index value in axis ax of the integer position given by index term i"""
    if isinstance(i, (int, np.integer)):
        i = t.ic(i)
    if ax.kind == 'fix':
        if i.op == 'ic':
            k = i.a[0]
            if k < 0: k += ax.n
            if not (0 <= k < ax.n): raise ShapeError('index %d out of bounds for axis of length %d' % (i.a[0], ax.n))
            return k
        raise Unsupported('symbolic index into fixed axis')
    if ax.kind == 'dim':
        if ax.mask is None:
            if i.dim == ax.dim or i.op == 'ic': return i
            if i.op == 'if' and i.a[0] in _rankax:
                # a rank used as a plain position: an integer of another type
                return t.ifun(i.a[0], i.a[1], ax.dim)
            raise Unsupported('index of type %s into axis %s' % (i.dim, ax.dim))
        if i.op == 'if' and i.a[0] in _rankax:
            key, fvs, mb, ph = canon_mask(ax)
            if key == _rankax[i.a[0]] and tuple(fvs) == i.a[1][1:]: return i.a[1][0]
        if i.op == 'ic':
            return nth(ax, i.a[0])
        if i.dim == ax.dim and mask_equiv(dimaxis(ax.dim), ax, path): return i
        raise Unsupported('index of type %s into axis %s' % (i.dim, ax))
    # concatenation
    off = 0
    inner = i
    if i.op == 'if' and i.a[0] in _offsz:
        off = _offsz[i.a[0]]; inner = i.a[1][0]
    cur = 0
    for b, p in enumerate(ax.parts):
        d = off - cur if isinstance(off, (Size,)) else ((off - cur) if not isinstance(cur, Size) else (Size([fixaxis(off)]) - cur if off else (0 - cur)))
        if isinstance(d, Size) and d.pos and d.neg:
            from . import solve
            if solve.is_zero(d.to_T(), list(path or ())): d = 0
        if isinstance(d, int) and d == 0 and inner.op != 'ic':
            try: return (b, resolve(inner, p, path))
            except Unsupported: pass
        if inner.op == 'ic' and isinstance(d, int):
            k = d + inner.a[0]
            if p.kind == 'fix':
                if 0 <= k < p.n: return (b, k)
            elif k >= 0:
                if b == 0 or k == 0: return (b, resolve(t.ic(k), p))
        cur = cur + size_of(p)
    # negative constant from the end
    if i.op == 'ic' and i.a[0] < 0 and ax.parts[-1].kind == 'fix' and -i.a[0] <= ax.parts[-1].n:
        return (len(ax.parts) - 1, ax.parts[-1].n + i.a[0])
    # resolve to a unique typed block
    raise Unsupported('index %r into concatenated axis %r' % (i, ax))

_nths = {}
_nthax = {}     # name -> (mask with placeholders, placeholders, n, dim)
def nth(ax, n):
    """index term of the n-th element of a masked axis (n = 0, 1, .. or -1)"""
    key, fvs, mb, ph = canon_mask(ax)
    key = key + (n,)
    nm = _nths.get(key)
    if nm is None:
        nm = _nths[key] = 'nth#%d' % len(_nths)
        _nthax[nm] = (mb, ph, n, ax.dim)
        def f(env, *args, ax=ax, n=n, mb=mb, ph=ph):
            v = t.iv('$', ax.dim)
            b = dict(zip(ph, args))
            ks = [i for i in range(env.sizes[ax.dim]) if t.ev(mb, env, dict(b, **{}) | {v: i})]
            return ks[n] if -len(ks) <= n < len(ks) else 0
        t.IREG[nm] = f
    return t.ifun(nm, tuple(fvs), ax.dim)

def as_index(x):
    """index term from a scalar value"""
    if isinstance(x, (int, np.integer)): return t.ic(int(x))
    if isinstance(x, float) and x == int(x): return t.ic(int(x))
    if isinstance(x, Size):
        s = x
        return shift(t.ic(0), s)
    if isinstance(x, T):
        if x.op in t.INDEX: return x
        if x.op == 'idx': return x.a[0]
        if x.op == 'q' and x.a[1] == 0 and x.a[0].denominator == 1: return t.ic(int(x.a[0]))
        if x.op == 'add':
            ii = [y for y in x.a if y.op == 'idx']
            if len(ii) == 1 and len(x.a) == 2:
                o = [y for y in x.a if y.op != 'idx'][0]
                if o.op == 'q' and o.a[0].denominator == 1: return shift(ii[0].a[0], int(o.a[0]))
        # try the normal form
        p = t.norm(x)
        if len(p) == 1:
            (m, c), = p.items()
            if c == t.ONEC and not m[0] and not m[1] and len(m[2]) == 1:
                (y, e), = m[2]
                if y.op == 'idx' and e == 1: return y.a[0]
        # magnitude of a signed index
        if x.op == 'abs':
            q = t.norm(x.a[0] * x.a[0])
            if len(q) == 1:
                (m, c), = q.items()
                if c == t.ONEC and not m[0] and not m[1] and len(m[2]) == 1:
                    (y, e), = m[2]
                    if y.op == 'idx' and e == 2: return y.a[0]
        # index plus lengths of axes
        base = None; off = Size([]); ok = True
        for m, c in p.items():
            if c[1] != 0 or c[0].denominator != 1: ok = False; break
            n = int(c[0])
            if not m[0] and not m[1] and len(m[2]) == 1 and list(m[2])[0][0].op == 'idx' and list(m[2])[0][1] == 1 and n == 1 and base is None: base = list(m[2])[0][0].a[0]
            elif not m[0] and not m[1] and not m[2]: off = off + n
            elif len(m[0]) == 1 and not m[2] and 1 <= abs(n) <= 4:
                v = m[0][0]
                axv = dimaxis(v.dim) if not m[1] else dimaxis(v.dim, lambda i, v=v, cs=m[1]: t.mkand(*[t.subst(k, {v: i}) for k in sorted(cs, key=lambda z: z.s())]))
                off = off + Size([axv] * n) if n > 0 else off - Size([axv] * -n)
            else: ok = False; break
        if ok and (len(p) > 1 or not isinstance(off, int)): return shift(base if base is not None else t.ic(0), off)
    raise Unsupported('not an index: %r' % (x,))

# ---- arrays -------------------------------------------------------------------
ORDER = {'b': 0, 'i': 1, 'f': 2, 'c': 3}

class SArray(object):
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, axes, fn, kind='f', storage='dense', base=None, vmap=None, vinv=None):
        self.axes = list(axes); self._fn = None; self.kind = kind; self.storage = storage
        self.base = base; self.vmap = vmap; self.vinv = vinv
        self.uid = next(_uid)
        self.fmt = None
        self.version = 0
        self.names = None; self.opaque = False
        if base is None: self._setfn(fn)
    def _setfn(self, fn):
        memo = {}
        def g(*ix):
            r = memo.get(ix)
            if r is None:
                r = memo[ix] = fn(*ix)
            return r
        self._fn = g
        self.version += 1
    @property
    def fn(self):
        """snapshot of the content"""
        if self.base is None: return self._fn
        f = self.base.fn; m = self.vmap
        def g(*ix):
            try: k = m(ix)
            except NoEntry: return t.ZERO
            return f(*k)
        return g
    def entry(self, *ix): return self.fn(*ix)
    def num(self, *ix):
        """entry as a scalar term"""
        return t.lift(self.fn(*ix))
    @property
    def ndim(self): return len(self.axes)
    @property
    def shape(self): return tuple(size_of(a) for a in self.axes)
    @property
    def size(self):
        s = 1
        for a in self.axes:
            n = size_of(a)
            if isinstance(s, int) and s == 1: s = n
            elif isinstance(n, int) and n == 1: pass
            else: s = s * n if not (isinstance(s, Size) and isinstance(n, Size)) else t.mul(s.to_T(), n.to_T())
        return s
    def __len__(self): raise Unsupported('len() outside interpreter')
    def __iter__(self): raise Unsupported('iteration over symbolic array outside interpreter')
    def __bool__(self): raise Unsupported('truth of array outside interpreter')
    __hash__ = object.__hash__
    def copy(self, *a, **k):
        r = SArray(self.axes, self.fn, self.kind, self.storage); r.fmt = self.fmt; return r
    def like(self, fn, kind=None, storage=None, axes=None):
        return SArray(axes or self.axes, fn, kind or self.kind, storage or self.storage)
    def map(self, f, kind=None):
        g = self.fn
        return SArray(self.axes, lambda *ix: f(t.lift(g(*ix))), kind or self.kind, self.storage)
    def assign_all(self, other_fn, cond=None):
        pass
    # ---- transposition
    @property
    def T(self):
        if self.ndim == 1: return self
        if self.storage == 'sparse':
            g = self.fn
            return SArray(self.axes[::-1], lambda i, j: g(j, i), self.kind, self.storage)
        return SArray(self.axes[::-1], None, self.kind, self.storage, base=self, vmap=lambda ix: ix[::-1],
                      vinv=lambda bix: (t.TRUE, bix[::-1]))
    def transpose(self, *a): return self.T
    @property
    def H(self): return self.conj().T
    def getH(self): return self.conj().T
    def conj(self):
        if self.kind != 'c': return self.copy()
        return self.map(lambda x: t.conj(x))
    conjugate = conj
    @property
    def real(self):
        return self.map(lambda x: t.real(x), 'f') if self.kind == 'c' else self.copy()
    @property
    def imag(self):
        return self.map(lambda x: t.imag(x), 'f') if self.kind == 'c' else self.map(lambda x: t.ZERO, 'f')
    # ---- elementwise
    def _bin(self, o, f, kind=None, rev=False):
        return elementwise(o, self, f, kind) if rev else elementwise(self, o, f, kind)
    def __add__(self, o): return NotImplemented if not arrayish(o) else elementwise(self, o, lambda a, b: t.add(a, b))
    def __radd__(self, o): return elementwise(o, self, lambda a, b: t.add(a, b))
    def __sub__(self, o): return elementwise(self, o, lambda a, b: t.add(a, t.mul(-1, b)))
    def __rsub__(self, o): return elementwise(o, self, lambda a, b: t.add(a, t.mul(-1, b)))
    def __mul__(self, o):
        if (self.storage in ('sparse', 'matrix') or (isinstance(o, SArray) and o.storage in ('sparse', 'matrix'))) and isinstance(o, (SArray, np.ndarray)):
            return matmul(self, o)
        return elementwise(self, o, lambda a, b: t.mul(a, b))
    def __rmul__(self, o):
        if isinstance(o, np.ndarray): return aslift(o).__mul__(self)
        return elementwise(o, self, lambda a, b: t.mul(a, b))
    def __truediv__(self, o): return elementwise(self, o, lambda a, b: t.mul(a, t.power(b, -1)), div=True)
    def __rtruediv__(self, o): return elementwise(o, self, lambda a, b: t.mul(a, t.power(b, -1)), div=True)
    def __pow__(self, o):
        if self.storage in ('sparse', 'matrix'): 
            if o == 2: return matmul(self, self)
            raise Unsupported('matrix power')
        return elementwise(self, o, lambda a, b: a ** b)
    def __rpow__(self, o): return elementwise(o, self, lambda a, b: a ** b)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(aslift(o), self)
    def __neg__(self): return self.map(lambda x: t.mul(-1, x), 'i' if self.kind == 'b' else None)
    def __pos__(self): return self.copy()
    def __abs__(self): return self.map(t.absv, 'f')
    def __lt__(self, o): return elementwise(self, o, lambda a, b: a < b, 'b')
    def __gt__(self, o): return elementwise(self, o, lambda a, b: a > b, 'b')
    def __le__(self, o): return elementwise(self, o, lambda a, b: a <= b, 'b')
    def __ge__(self, o): return elementwise(self, o, lambda a, b: a >= b, 'b')
    def __eq__(self, o):
        if o is None or isinstance(o, str): return False
        return elementwise(self, o, lambda a, b: t.cmp_eq(a, b), 'b')
    def __ne__(self, o):
        if o is None or isinstance(o, str): return True
        return elementwise(self, o, lambda a, b: t.mknot(t.cmp_eq(a, b)), 'b')
    def __and__(self, o):
        if self.kind == 'i' or skind(aslift(o)) == 'i': return bitand(self, o)
        return elementwise(self, o, lambda a, b: t.mkand(a, b), 'b', raw=True)
    def __rand__(self, o):
        if self.kind == 'i' or skind(aslift(o)) == 'i': return bitand(self, o)
        return elementwise(o, self, lambda a, b: t.mkand(a, b), 'b', raw=True)
    def __or__(self, o): return elementwise(self, o, lambda a, b: t.mkor(a, b), 'b', raw=True)
    def __ror__(self, o): return elementwise(o, self, lambda a, b: t.mkor(a, b), 'b', raw=True)
    def __xor__(self, o): return elementwise(self, o, lambda a, b: t.mkor(t.mkand(a, t.mknot(b)), t.mkand(b, t.mknot(a))), 'b', raw=True)
    def __invert__(self):
        if self.kind != 'b': raise Unsupported('~ on non-boolean array')
        g = self.fn
        return SArray(self.axes, lambda *ix: t.mknot(t.ascond(g(*ix))), 'b', self.storage)
    # ---- methods
    def dot(self, o): return matmul(self, o)
    def astype(self, k, *a, **kw):
        if k in (int, 'int', 'i', np.int64, np.int32, np.intp) or k is np.integer:
            if self.kind == 'b':
                g = self.fn
                return SArray(self.axes, lambda *ix: t.br(t.ascond(g(*ix))), 'i', self.storage)
            return SArray(self.axes, self.fn, 'i', self.storage)
        if k in (bool, np.bool_, 'bool'):
            g = self.fn
            return SArray(self.axes, lambda *ix: t.ascond(g(*ix)), 'b', self.storage)
        if k in (float, np.float64, 'float'):
            return SArray(self.axes, self.fn if self.kind != 'b' else (lambda g: (lambda *ix: t.br(g(*ix))))(self.fn), 'f', self.storage)
        if k in (complex, np.complex128):
            return SArray(self.axes, self.fn, 'c', self.storage)
        raise Unsupported('astype %r' % (k,))
    def toarray(self, *a): return SArray(self.axes, self.fn, self.kind, 'dense')
    def todense(self, *a): return SArray(self.axes, self.fn, self.kind, 'matrix')
    def tocsr(self, *a, **k): return SArray(self.axes, self.fn, self.kind, 'sparse')
    tocsc = tocoo = tolil = asformat = tocsr
    def diagonal(self, *a, **k):
        if self.ndim != 2 or not self.axes[0].same(self.axes[1]): raise Unsupported('diagonal of non-square')
        g = self.fn
        return SArray(self.axes[:1], lambda i: g(i, i), self.kind)
    def flatten(self, *a): return ravel(self, *a)
    def ravel(self, *a): return ravel(self, *a)
    def sum(self, axis=None, **kw): return reduce_sum(self, axis, kw.get('keepdims', False))
    def any(self, axis=None): return reduce_any(self, axis)
    def all(self, axis=None):
        r = reduce_any(~astruth(self), axis)
        return ~r if isinstance(r, SArray) else t.mknot(r)
    def multiply(self, o):
        r = elementwise(self, o, lambda a, b: t.mul(a, b))
        r.storage = 'sparse'
        return r
    def reshape(self, *s, **k): return reshape(self, *s)
    def fill(self, v):
        self[tuple([slice(None)] * self.ndim)] = v
    def tolist(self):
        if self.ndim == 1 and self.axes[0].kind == 'fix': return [self.entry(i) for i in range(self.axes[0].n)]
        raise Unsupported('tolist')
    @property
    def nnz(self):
        # number of stored entries: only its being zero is observable here
        return NNZ(self)
    @property
    def dtype(self): return {'b': np.dtype(bool), 'i': np.dtype(int), 'f': np.dtype(float), 'c': np.dtype(complex)}[self.kind]
    @property
    def flat(self): raise Unsupported('flat')
    def __getitem__(self, key): return getitem(self, key)
    def __setitem__(self, key, val): setitem(self, key, val)
    def __repr__(self): return 'SArray(%s,%s,%s)' % (self.axes, self.kind, self.storage)

class NNZ(object):
    """number of structurally nonzero entries (only compared with 0)"""
    def __init__(self, a): self.arr = a
    def nonempty(self):
        # over-approximated: stored pattern nonempty iff some entry is nonzero
        a = self.arr
        return reduce_any(astruth(a), None)
    def __gt__(self, o):
        if o == 0: return self.nonempty()
        raise Unsupported('nnz compare')
    def __eq__(self, o):
        if o == 0: return t.mknot(self.nonempty())
        raise Unsupported('nnz compare')
    def __ne__(self, o):
        if o == 0: return self.nonempty()
        raise Unsupported('nnz compare')
    __hash__ = None

class NormInf(object):
    """max |x_i| over one or more nonempty arrays; compared with a bound entry by entry, and a number attained and
       not exceeded where it is used as one"""
    def __init__(self, *a): self.arrs = a; self.num = None
    @property
    def arr(self): return self.arrs[0]
    def to_T(self):
        if len(self.arrs) != 1 or self.arr.ndim != 1: raise Unsupported('maximum as a number')
        if self.num is None:
            from . import npmodel
            self.num = npmodel.extreme(abs_of(self.arr), self.arr.axes[0], 'max')
        return self.num
    def _below(self, o, strict): return t.mkand(*[self._below1(a, o, strict) for a in self.arrs])
    def _below1(self, a, o, strict):
        f = lambda *ix: t.mknot(t.absv(a.num(*ix)) < o if strict else t.absv(a.num(*ix)) <= o)
        if a.ndim == 1: return t.mknot(any_over(a.axes[0], f))
        return t.mknot(any_over(a.axes[0], lambda i: any_over(a.axes[1], lambda j: f(i, j))))
    def __lt__(self, o): return self._below(t.lift(o), True)
    def __le__(self, o): return self._below(t.lift(o), False)
    def __gt__(self, o): return t.mknot(self._below(t.lift(o), False))
    def __ge__(self, o): return t.mknot(self._below(t.lift(o), True))
    __hash__ = None
    def __add__(self, o): return self.to_T() + o
    def __radd__(self, o): return o + self.to_T()
    def __sub__(self, o): return self.to_T() - o
    def __rsub__(self, o): return o - self.to_T()
    def __mul__(self, o): return self.to_T() * o
    def __rmul__(self, o): return o * self.to_T()
    def __truediv__(self, o): return self.to_T() / o
    def __rtruediv__(self, o): return o / self.to_T()

def abs_of(x):
    from . import npmodel
    return npmodel.MODELS[np.absolute](x)

def arrayish(o):
    return isinstance(o, (SArray, np.ndarray, T, int, float, complex, Size, np.generic, Fr, list, tuple)) 

def aslift(x):
    """SArray or scalar from any value"""
    if isinstance(x, SArray): return x
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)) and not isinstance(x, str):
        if isinstance(x, (list, tuple)) and any(isinstance(y, (T, Size, SArray)) for y in x):
            from . import npmodel
            return npmodel.m_array(x)
        a = np.asarray(x)
        if a.dtype == object: raise Unsupported('object array')
        if a.ndim == 0: return a.item()
        kind = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}.get(a.dtype.kind)
        if kind is None: raise Unsupported('dtype')
        a = a.copy()
        def fn(*ix):
            v = a[ix]
            return t.ascond(bool(v)) if kind == 'b' else t.lift(v.item())
        st = 'matrix' if isinstance(x, np.matrix) else 'dense'
        return SArray([fixaxis(n) for n in a.shape], fn, kind, st)
    if hasattr(x, 'tocoo'):
        a = x.toarray()
        r = aslift(np.asarray(a)); r.storage = 'sparse'
        return r
    return x

def skind(x):
    if isinstance(x, SArray): return x.kind
    if isinstance(x, bool): return 'b'
    if isinstance(x, (int, np.integer, Size)): return 'i'
    if isinstance(x, complex): return 'c'
    if isinstance(x, T):
        if x.op in t.COND: return 'b'
        if x.op == 'idx': return 'i'
        return 'c' if not _realterm(x) else 'f'
    return 'f'

_rt = {}
def _realterm(x):
    r = _rt.get(x)
    if r is None:
        r = _rt[x] = _realterm1(x)
    return r
def _realterm1(x):
    op = x.op
    if op == 'q': return x.a[1] == 0
    if op == 'in': return x.a[2] != 'c'
    if op in ('abs', 'arg', 'br', 'idx', 'pi', 'inf', 'E', 'X', 'sqrt', 'fn', 'nan') and op not in ('E',): 
        return not (op == 'fn' and x.a[0] in t.COMPLEXFN)
    if op in ('add', 'mul'):
        if all(_realterm(y) for y in x.a): return True
        # HALF*(z+conj z)
        try: return t.pisreal(t.norm(x))
        except Exception: return False
    if op == 'pow': return _realterm(x.a[0])
    if op == 'sum': return _realterm(x.a[1])
    if op == 'conj': return _realterm(x.a[0])
    return False

def bcast(a, b):
    """broadcast two axis lists; returns axes and two index projectors"""
    n = max(len(a), len(b))
    pa = [None] * (n - len(a)) + list(a); pb = [None] * (n - len(b)) + list(b)
    axes = []; ma = []; mb = []
    for x, y in zip(pa, pb):
        if x is None: axes.append(y); ma.append(None); mb.append('i')
        elif y is None: axes.append(x); ma.append('i'); mb.append(None)
        elif x.same(y) or mask_equiv(x, y): axes.append(x); ma.append('i'); mb.append('i')
        elif x.isfix(1): axes.append(y); ma.append(0); mb.append('i')
        elif y.isfix(1): axes.append(x); ma.append('i'); mb.append(0)
        else: raise_shape(x, y)
    def proj(m):
        def f(ix):
            return tuple((i if k == 'i' else k) for i, k in zip(ix, m) if k is not None)
        return f
    return axes, proj(ma), proj(mb)

def raise_shape(x, y):
    if x.kind == 'fix' and y.kind == 'fix': raise ShapeError('shapes %s vs %s' % (x, y))
    raise Unsupported('axes %s vs %s' % (x, y))

def elementwise(a, b, f, kind=None, div=False, raw=False):
    a = aslift(a); b = aslift(b)
    ka, kb = skind(a), skind(b)
    st = 'dense'
    for x in (a, b):
        if isinstance(x, SArray) and x.storage != 'dense':
            if x.storage == 'matrix' or st == 'dense': st = x.storage
    if isinstance(a, SArray) and isinstance(b, SArray):
        if {a.storage, b.storage} == {'sparse', 'dense'}:
            st = 'matrix'
        elif {a.storage, b.storage} == {'sparse', 'matrix'}: st = 'matrix'
    L = (lambda x: x) if raw else t.lift
    if isinstance(a, SArray) and isinstance(b, SArray):
        axes, pa, pb = bcast(a.axes, b.axes)
        fa, fb = a.fn, b.fn
        g = lambda *ix: f(L(fa(*pa(ix))), L(fb(*pb(ix))))
    elif isinstance(a, SArray):
        axes = a.axes; fa = a.fn
        bb = b if raw else t.lift(b)
        g = lambda *ix: f(L(fa(*ix)), bb)
    elif isinstance(b, SArray):
        axes = b.axes; fb = b.fn
        aa = a if raw else t.lift(a)
        g = lambda *ix: f(aa, L(fb(*ix)))
    else:
        return f(t.lift(a), t.lift(b))
    if kind is None:
        kind = ka if ORDER[ka] >= ORDER[kb] else kb
        if div and kind in ('b', 'i'): kind = 'f'
        if kind == 'b': kind = 'i'
    return SArray(axes, g, kind, st)

def bitand(a, b):
    """bitwise and of integers that are known to be 0 or 1 (or of such integers and truth values)"""
    from .npmodel import enumvals
    def f(x, y):
        for z in (x, y):
            if z.op in t.COND or z.op == 'br': continue
            vs = enumvals(z)
            if vs is None or not set(vs) <= {0, 1}: raise Unsupported('bitwise and of integers')
        return t.mul(t.br(x) if x.op in t.COND else x, t.br(y) if y.op in t.COND else y)
    return elementwise(a, b, f, 'i', raw=True)

def astruth(a):
    if isinstance(a, SArray):
        if a.kind == 'b': return a
        g = a.fn
        return SArray(a.axes, lambda *ix: t.ascond(g(*ix)), 'b', a.storage)
    return t.ascond(a)

def match_axes(x, y):
    if x.same(y) or mask_equiv(x, y): return
    raise_shape(x, y)

def matmul(a, b):
    a = aslift(a); b = aslift(b)
    if not isinstance(a, SArray) or not isinstance(b, SArray):
        return elementwise(a, b, lambda x, y: t.mul(x, y))
    ka = a.kind if ORDER[a.kind] >= ORDER[b.kind] else b.kind
    if ka == 'b': ka = 'i'
    fa = a.fn; fb = b.fn
    st = 'sparse' if a.storage == b.storage == 'sparse' else ('matrix' if 'matrix' in (a.storage, b.storage) else 'dense')
    if a.ndim == 1 and b.ndim == 1:
        match_axes(a.axes[0], b.axes[0])
        return sum_over(a.axes[0], lambda k: t.mul(fa(k), fb(k)))
    if a.ndim == 2 and b.ndim == 1:
        match_axes(a.axes[1], b.axes[0])
        a_axes1 = a.axes[1]
        if getattr(a, 'opaque', False) and a.axes[0].kind == 'dim' and ka != 'c':
            def named(i):
                v = t.iv('$n', a.axes[0].dim)
                d = t.define(sum_over(a_axes1, lambda k: t.mul(fa(v, k), fb(k))), (v,))
                return t.mk('in', d.a[0], (i,), 'r')
            return SArray(a.axes[:1], named, ka, 'dense')
        r = SArray(a.axes[:1], lambda i: sum_over(a_axes1, lambda k: t.mul(fa(i, k), fb(k))), ka, 'dense')
        if a.storage == 'matrix':
            # matrix * 1-D: (n,m)*(1,m) would fail unless m==1; scipy/numpy treat as row
            raise Unsupported('matrix times 1-D')
        return r
    if a.ndim == 1 and b.ndim == 2:
        match_axes(a.axes[0], b.axes[0])
        ax = a.axes[0]
        if b.storage == 'matrix':
            return SArray([fixaxis(1), b.axes[1]], lambda z, j: sum_over(ax, lambda k: t.mul(fa(k), fb(k, j))), ka, 'matrix')
        return SArray(b.axes[1:], lambda j: sum_over(ax, lambda k: t.mul(fa(k), fb(k, j))), ka, 'dense')
    if a.ndim == 2 and b.ndim == 2:
        match_axes(a.axes[1], b.axes[0])
        ax = a.axes[1]
        return SArray([a.axes[0], b.axes[1]], lambda i, j: sum_over(ax, lambda k: t.mul(fa(i, k), fb(k, j))), ka, st)
    raise Unsupported('matmul ndim')

def ravel(a, order='C'):
    if a.ndim == 1: return a.copy()
    if a.ndim == 2:
        g = a.fn
        if order == 'F' and a.storage == 'dense' and a.axes[1].kind == 'fix' and a.axes[1].n > 1 and a.axes[0].kind != 'fix':
            return SArray([cataxis([a.axes[0]] * a.axes[1].n)], lambda ix: g(ix[1], ix[0]), a.kind)      # column after column
        if a.axes[0].isfix(1):
            return SArray([a.axes[1]], lambda j: g(0, j), a.kind) if a.storage != 'matrix' else a.copy()
        if a.axes[1].isfix(1):
            if a.storage == 'matrix':
                return SArray([fixaxis(1), a.axes[0]], lambda z, i: g(i, 0), a.kind, 'matrix')
            return SArray([a.axes[0]], lambda i: g(i, 0), a.kind)
    raise Unsupported('ravel of 2-D')

def reshape(a, *s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
    g = a.fn
    if a.ndim == 1:
        if len(s) == 2:
            if s[1] == 1 and not isinstance(s[1], Size): return SArray([a.axes[0], fixaxis(1)], lambda i, z: g(i), a.kind)
            if s[0] == 1 and not isinstance(s[0], Size): return SArray([fixaxis(1), a.axes[0]], lambda z, i: g(i), a.kind)
        if len(s) == 1: return a.copy()
    if a.ndim == 2 and len(s) == 1: return ravel(a)
    raise Unsupported('reshape')

def reduce_sum(a, axis=None, keepdims=False):
    f = a.fn
    k = 'i' if a.kind == 'b' else a.kind
    if a.ndim == 1:
        return sum_over(a.axes[0], lambda i: t.lift(f(i)))
    if axis is None:
        a0, a1 = a.axes
        return sum_over(a0, lambda i: sum_over(a1, lambda j: t.lift(f(i, j))))
    if axis < 0: axis += 2
    if axis == 0:
        ax = a.axes[0]
        g = lambda j: sum_over(ax, lambda i: t.lift(f(i, j)))
        if a.storage != 'dense' or keepdims: return SArray([fixaxis(1), a.axes[1]], lambda z, j: g(j), k, 'matrix' if a.storage != 'dense' else 'dense')
        return SArray([a.axes[1]], g, k)
    ax = a.axes[1]
    g = lambda i: sum_over(ax, lambda j: t.lift(f(i, j)))
    if a.storage != 'dense' or keepdims: return SArray([a.axes[0], fixaxis(1)], lambda i, z: g(i), k, 'matrix' if a.storage != 'dense' else 'dense')
    return SArray([a.axes[0]], g, k)

def reduce_any(a, axis=None):
    f = a.fn
    if a.ndim == 1: return any_over(a.axes[0], lambda i: t.ascond(f(i)))
    if axis is None:
        a0, a1 = a.axes
        return any_over(a0, lambda i: any_over(a1, lambda j: t.ascond(f(i, j))))
    if axis == 0:
        ax = a.axes[0]
        return SArray([a.axes[1]], lambda j: any_over(ax, lambda i: t.ascond(f(i, j))), 'b')
    ax = a.axes[1]
    return SArray([a.axes[0]], lambda i: any_over(ax, lambda j: t.ascond(f(i, j))), 'b')

# ---- concatenation ------------------------------------------------------------
def concat(arrs, axis=0):
    arrs = [aslift(a) for a in arrs]
    nd = max(a.ndim for a in arrs)
    arrs2 = []
    for a in arrs:
        # an empty fixed 1-D array is neutral
        arrs2.append(a)
    for a in arrs2:
        if a.ndim != nd: raise ShapeError('concatenate of different ndim')
    for d in range(nd):
        if d != axis:
            for a in arrs2[1:]: match_axes(arrs2[0].axes[d], a.axes[d])
    kind = max((a.kind for a in arrs2), key=lambda k: ORDER[k])
    # flatten blocks
    blocks = []          # (axis part, fn(ix inner) for array, wrap)
    merged = []
    fns = []
    for a in arrs2:
        f = a.fn
        for wrap, p in axis_blocks(a.axes[axis]):
            if p.isfix(0): continue
            conv = (lambda x: x) if kind == 'b' or a.kind != 'b' else t.lift
            fns.append((p, f, wrap, conv))
    # build mapping from catalogue of parts to flattened cataxis
    ax = cataxis([p for p, _, _, _ in fns])
    if ax.kind == 'cat':
        table = []
        for p, f, wrap, conv in fns:
            if table and p.kind == 'fix' and table[-1][0][0].kind == 'fix':
                table[-1].append((p, f, wrap, conv))
            else: table.append([(p, f, wrap, conv)])
        def pick(ixa):
            b, inner = ixa
            return _pickfix(table[b], inner)
    else:
        tb = fns
        def pick(ixa): return _pickfix(tb, ixa)
    def g(*ix):
        f, w, conv = pick(ix[axis])
        ix2 = ix[:axis] + (w,) + ix[axis + 1:]
        return conv(f(*ix2))
    axes = list(arrs2[0].axes); axes[axis] = ax
    return SArray(axes, g, kind)

def _pickfix(lst, inner):
    if len(lst) == 1:
        p, f, wrap, conv = lst[0]
        return f, wrap(inner), conv
    k = inner
    for p, f, wrap, conv in lst:
        if k < p.n: return f, wrap(k), conv
        k -= p.n
    raise ShapeError('index')

# ---- indexing --------------------------------------------------------------
class Sel(object):
    __slots__ = ('kind', 'v', 'ax', 'start')
    def __init__(self, kind, v=None, ax=None):
        self.kind = kind; self.v = v; self.ax = ax

class IxArr(object):
    """one component of ix_(): index array with its position in the mesh"""
    def __init__(self, arr, pos, n): self.arr = arr; self.pos = pos; self.n = n

def isempty_list(k):
    return isinstance(k, (list, tuple)) and len(k) == 0

def find(m):
    """flatnonzero of a 1-D array"""
    m = aslift(m)
    if m.ndim == 2 and (m.axes[0].isfix(1) or m.axes[1].isfix(1)):
        g0 = m.fn
        m = SArray([m.axes[1]], lambda j: g0(0, j), m.kind) if m.axes[0].isfix(1) else SArray([m.axes[0]], lambda i: g0(i, 0), m.kind)
    if m.ndim != 1: raise Unsupported('find on 2-D')
    m = astruth(m)
    ax = m.axes[0]
    g = m.fn
    if ax.kind == 'fix':
        # concrete positions only if all entries decided
        idx = []
        for i in range(ax.n):
            c = decide_hook(g(i))
            if c: idx.append(i)
        return aslift(np.array(idx, dtype=int))
    if ax.kind == 'dim':
        old = ax.mask
        mask = (lambda i: t.ascond(g(i))) if old is None else (lambda i: t.mkand(old(i), t.ascond(g(i))))
        nax = dimaxis(ax.dim, mask)
        nax = simpaxis(nax)
        return SArray([nax], lambda i: t.mk('idx', position(ax, i)), 'i')
    parts = []
    for b, p in enumerate(ax.parts):
        gb = lambda i, b=b: t.ascond(g((b, i)))
        if p.kind == 'dim':
            old = p.mask
            parts.append(simpaxis(dimaxis(p.dim, gb if old is None else (lambda i, old=old, gb=gb: t.mkand(old(i), gb(i))))))
        else:
            keep = [i for i in range(p.n) if decide_hook(gb(i))]
            if len(keep) == p.n: parts.append(p)
            elif not keep: parts.append(fixaxis(0))
            else: raise Unsupported('find on mixed block')
    blocks = [SArray([p], (lambda i, b=b: t.mk('idx', position(ax, (b, i)))), 'i') for b, p in enumerate(parts) if not p.isfix(0)]
    if not blocks: return aslift(np.array([], dtype=int))
    return concat(blocks) if len(blocks) > 1 else blocks[0]

def simpaxis(ax):
    """drop a trivially true / empty mask"""
    p = t.normc(ax.mask(t.iv('$', ax.dim)))
    if not p: return fixaxis(0)
    if p == t.pconst(1): return dimaxis(ax.dim)
    return ax

decide_hook = None      # set by the interpreter: forks on a condition

def parse_sel(k, ax):
    if isinstance(k, slice):
        if k.start is None and k.stop is None and k.step is None: return Sel('all', ax=ax)
        return parse_slice(k, ax)
    if isinstance(k, IxArr): return Sel('arr', k.arr)
    if type(k).__name__ == 'SymRange': k = SArray([k.ax], (lambda it: lambda ix: it(ix))(k.item), 'i')
    if isinstance(k, (list, np.ndarray)) or isinstance(k, range):
        k = aslift(list(k) if isinstance(k, range) else k)
        if not isinstance(k, SArray): return Sel('int', resolve(as_index(k), ax))
        if k.ndim == 1 and k.axes[0].isfix(0): k = SArray(k.axes, k.fn, 'i')
    if isinstance(k, tuple):
        from . import npmodel
        if len(k) == 1 and isinstance(k[0], SArray) and k[0].ndim == 1:
            g0 = k[0].fn
            k = SArray([fixaxis(1), k[0].axes[0]], lambda z, i: g0(i), k[0].kind)
        else: k = npmodel.m_array(list(k))
    if isinstance(k, SArray):
        if k.kind == 'b':
            if k.ndim != 1: raise Unsupported('2-D boolean index')
            match_axes(k.axes[0], ax)
            return Sel('arr', find(k))
        if k.ndim == 0: raise Unsupported('0-d index')
        return Sel('arr', k)
    if isinstance(k, T) and k.op in t.COND: raise Unsupported('boolean scalar index')
    if isinstance(k, (int, np.integer, T, Size)):
        if isinstance(k, bool): raise Unsupported('bool index')
        if isinstance(k, int) and k in (0, -1) and ax.kind == 'dim' and ax.mask is not None and decide_hook is not None:
            if not decide_hook(any_over(ax, lambda i: t.TRUE)): raise ShapeError('index into an empty array')
        return Sel('int', resolve(as_index(k), ax))
    if isinstance(k, float): raise ShapeError('float index')
    raise Unsupported('index %r' % (type(k),))

NAMED_MODE = []
def known_zero(d):
    """a difference of sizes whose every remaining axis is known to be empty"""
    if isinstance(d, (int, np.integer)): return d == 0
    if not isinstance(d, Size): return False
    path = getattr(getattr(decide_hook, '__self__', None), 'path', None)
    if path is None: return False
    from . import solve
    return all(a.kind == 'dim' and solve.implied(path, any_over(a, lambda i: t.TRUE)) is False for a in d.pos + d.neg)
def parse_slice(k, ax):
    if k.step is not None and k.step != 1:
        if ax.kind == 'fix' and all(x is None or isinstance(x, (int, np.integer)) for x in (k.start, k.stop, k.step)):
            idx = list(range(*k.indices(ax.n)))
            return Sel('sub', idx, fixaxis(len(idx)))
        raise Unsupported('strided slice')
    if ax.kind == 'fix':
        if all(x is None or isinstance(x, (int, np.integer)) for x in (k.start, k.stop)):
            idx = list(range(*k.indices(ax.n)))
            return Sel('sub', idx, fixaxis(len(idx)))
        if ax.n == 0: return Sel('sub', [], fixaxis(0))
        raise Unsupported('symbolic slice of fixed axis')
    if isinstance(k.stop, Size) and not k.stop.neg and cataxis(k.stop.pos).same(ax): k = slice(k.start, None, k.step)
    if ax.kind == 'dim' and k.stop is None and isinstance(k.start, (int, np.integer)) and 0 < k.start < 4:
        firsts = [nth(ax, i) for i in range(int(k.start))]
        old = ax.mask
        cond = lambda i: t.mkand(*([] if old is None else [t.ascond(old(i))]), *[t.mknot(t.eqi(i, f)) for f in firsts])
        return Sel('rest', firsts, dimaxis(ax.dim, cond))
    parts = ax.parts if ax.kind == 'cat' else [ax]
    # boundaries
    def locate(x, default):
        if x is None: return default
        cur = 0
        if isinstance(x, T):
            x = _size_from_T(x)
        if isinstance(x, (int, np.integer)) and x < 0:
            if parts[-1].kind == 'fix' and -x <= parts[-1].n: return (len(parts) - 1, parts[-1].n + x)
            raise Unsupported('negative slice bound')
        for b, p in enumerate(parts):
            d = x - cur
            if isinstance(d, (int, np.integer)):
                if d == 0: return (b, 0)
                if p.kind == 'fix' and 0 < d <= p.n: return (b, int(d)) if d < p.n else (b + 1, 0)
            cur = cur + size_of(p)
        d = x - cur
        if isinstance(d, (int, np.integer)) and d >= 0: return (len(parts), 0)
        if isinstance(x, Size):
            # blocks known to be empty contribute nothing to a bound
            cur = 0
            for b in range(len(parts) + 1):
                if known_zero(x - cur): return (b, 0)
                if b < len(parts): cur = cur + size_of(parts[b])
        raise Unsupported('slice bound %r in %r' % (x, ax))
    s = locate(k.start, (0, 0)); e = locate(k.stop, (len(parts), 0))
    if s >= e: return Sel('blocks', [], fixaxis(0))
    blocks = []
    for b in range(s[0], min(e[0] + 1, len(parts))):
        p = parts[b]
        lo = s[1] if b == s[0] else 0
        if b == e[0]:
            hi = e[1]
            if hi == 0: continue
        else: hi = p.n if p.kind == 'fix' else None
        blocks.append((b, lo, hi, p))
    nparts = []
    for b, lo, hi, p in blocks:
        nparts.append(fixaxis(hi - lo) if p.kind == 'fix' else p)
    nax = cataxis(nparts)
    if ax.kind != 'cat' and len(blocks) == 1 and ax.kind == 'dim': return Sel('all', ax=ax)
    return Sel('blocks', blocks, nax)

def _size_from_T(x):
    if x.op == 'q': return int(x.a[0])
    raise Unsupported('slice bound term')

def sel_axis(s, ax):
    if s.kind == 'all': return ax
    if s.kind in ('sub', 'blocks', 'rest'): return s.ax
    if s.kind == 'arr': return None
    return None

def sel_map(s, ix):
    """source index from result index for slices"""
    if s.kind in ('all', 'rest'): return ix
    if s.kind == 'sub':
        if not s.v: raise NoEntry()
        return s.v[ix]
    if s.kind == 'blocks':
        if s.ax.kind == 'cat':
            b, inner = ix
            sb, lo, hi, p = s.v[b]
            return (sb, inner + lo if p.kind == 'fix' else inner)
        if not s.v: raise NoEntry()
        sb, lo, hi, p = s.v[0]
        return (sb, ix + lo if p.kind == 'fix' else ix)
    raise Unsupported('sel_map')

def sel_inv(s, bix):
    """(condition, result index) for a base index (slices and ints)"""
    if s.kind == 'all': return t.TRUE, bix
    if s.kind == 'rest': return t.mkand(*[t.mknot(t.eqi(bix, f)) for f in s.v]), bix
    if s.kind == 'sub':
        return (t.TRUE, s.v.index(bix)) if bix in s.v else (t.FALSE, None)
    if s.kind == 'blocks':
        b0, inner = bix
        for k, (sb, lo, hi, p) in enumerate(s.v):
            if sb == b0:
                if p.kind == 'fix':
                    if not (lo <= inner < hi): return t.FALSE, None
                    inner = inner - lo
                return t.TRUE, ((k, inner) if s.ax.kind == 'cat' else inner)
        return t.FALSE, None
    if s.kind == 'int':
        return ixeq(bix, s.v), None
    raise Unsupported('sel_inv')

def ixeq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if a[0] != b[0]: return t.FALSE
        return ixeq(a[1], b[1])
    if isinstance(a, int) and isinstance(b, int): return t.TRUE if a == b else t.FALSE
    if isinstance(a, int): a = t.ic(a)
    if isinstance(b, int): b = t.ic(b)
    return t.eqi(a, b)

class Somewhere(object):
    """an array of valid positions about which nothing is known (contract of an index computation whose values do not matter)"""
    def __init__(self, axis, name='somewhere'): self.axis = axis; self.name = name
def getitem(a, key):
    if isinstance(key, Somewhere) and a.ndim == 1 and a.kind == 'f':
        return SArray([key.axis], lambda i: t.inp(key.name, i if isinstance(i, tuple) else (i,)), 'f')
    if a.storage == 'sparse' or a.storage == 'matrix': return getitem2(a, key)
    if not isinstance(key, tuple): key = (key,)
    key = list(key)
    if any(k is Ellipsis for k in key): raise Unsupported('ellipsis')
    newaxes = [i for i, k in enumerate(key) if k is None]
    if newaxes:
        if a.ndim == 1 and len(key) == 2:
            g = a.fn
            if key[0] is None: return SArray([fixaxis(1), a.axes[0]], lambda z, i: g(i), a.kind)
            return SArray([a.axes[0], fixaxis(1)], lambda i, z: g(i), a.kind)
        raise Unsupported('newaxis')
    if len(key) == 1 and isinstance(key[0], SArray) and key[0].kind == 'b' and key[0].ndim == 2 and a.ndim == 2:
        raise Unsupported('2-D boolean index')
    if len(key) > a.ndim: raise ShapeError('too many indices')
    key += [slice(None)] * (a.ndim - len(key))
    if any(isinstance(k, IxArr) for k in key):
        sels = [parse_sel(k, ax) for k, ax in zip(key, a.axes)]
        return gather_outer(a, sels)
    # orthogonal pattern  A[array([I]).T, J]
    if a.ndim == 2 and all(isinstance(k, SArray) and k.kind != 'b' for k in key):
        I, Jx = key
        return gather_mesh(a, I, Jx)
    sels = [parse_sel(k, ax) for k, ax in zip(key, a.axes)]
    if all(s.kind == 'int' for s in sels):
        return a.entry(*[s.v for s in sels])
    narr = sum(s.kind == 'arr' for s in sels)
    if narr == 0:
        axes = [sel_axis(s, ax) for s, ax in zip(sels, a.axes) if s.kind != 'int']
        def vmap(ix):
            it = iter(ix); out = []
            for s in sels:
                out.append(s.v if s.kind == 'int' else sel_map(s, next(it)))
            return tuple(out)
        def vinv(bix):
            cs = []; out = []
            for s, b in zip(sels, bix):
                c, x = sel_inv(s, b)
                if c is t.FALSE: return t.FALSE, None
                cs.append(c)
                if s.kind != 'int': out.append(x)
            return t.mkand(*cs), tuple(out)
        return SArray(axes, None, a.kind, a.storage, base=a, vmap=vmap, vinv=vinv)
    if narr == 1 or (narr == 2 and a.ndim == 2 and False):
        return gather1(a, sels)
    if narr == 2: 
        return gather_mesh(a, sels[0].v, sels[1].v)
    raise Unsupported('advanced indexing')

_given = {}
def index_given(e, cond, path):
    """the index a term stands for where a condition holds (membership in the axis it is read on)"""
    from . import solve
    key = (e.id, cond.id, tuple(c.id for c in path))
    if key in _given: return _given[key][1]
    c = t.br(cond)
    p = t.norm(t.mul(c, e)); cands = []
    for (sums, conds, atoms), _ in p.items():
        for y, n in atoms:
            if y.op == 'idx' and not (set(sums) & y.fv()) and y not in cands: cands.append(y)
    r = None
    for y in sorted(cands, key=lambda y: y.s())[:4]:
        if solve.is_zero(t.mul(c, t.add(e, t.mul(-1, y))), list(path)): r = y.a[0]; break
    _given[key] = (e, r, cond, list(path))
    return r

def idx_resolver(I, ax):
    f = I.fn
    owner = getattr(decide_hook, '__self__', None)
    path = list(getattr(owner, 'path', ()))
    def r(*x):
        e = f(*x)
        try: i = as_index(e)
        except Unsupported:
            i = index_given(e, t.mkand(*[X.cond(y) for X, y in zip(I.axes, x)]), path)
            if i is None: raise
        try: return resolve(i, ax)
        except Unsupported:
            # conditions of the path at the time of indexing may make a masked axis complete
            if not path: raise
            PATH.append(path)
            try: return resolve(i, ax, path)
            finally: PATH.pop()
    return r

def gather1(a, sels):
    f = a.fn
    axes = []
    for s, ax in zip(sels, a.axes):
        if s.kind == 'int': continue
        if s.kind == 'arr':
            axes.extend(s.v.axes)
        else: axes.append(sel_axis(s, ax))
    res = [idx_resolver(s.v, ax) if s.kind == 'arr' else None for s, ax in zip(sels, a.axes)]
    def g(*ix):
        out = []; p = 0
        for s, r in zip(sels, res):
            if s.kind == 'int': out.append(s.v)
            elif s.kind == 'arr':
                n = s.v.ndim
                out.append(r(*ix[p:p + n])); p += n
            else:
                out.append(sel_map(s, ix[p])); p += 1
        return f(*out)
    return SArray(axes, g, a.kind, 'dense')

def gather_outer(a, sels, storage='dense'):
    f = a.fn
    axes = []; res = []
    for s, ax in zip(sels, a.axes):
        if s.kind == 'arr':
            I = s.v
            if I.ndim != 1: raise Unsupported('ix_ with 2-D')
            axes.append(I.axes[0]); res.append(idx_resolver(I, ax))
        elif s.kind == 'int':
            axes.append(fixaxis(1)); res.append(lambda i, v=s.v: v)
        else:
            axes.append(sel_axis(s, ax)); res.append(lambda i, s=s: sel_map(s, i))
    def fn(*ix):
        try: k = [r(i) for r, i in zip(res, ix)]
        except NoEntry: return t.ZERO
        return f(*k)
    return SArray(axes, fn, a.kind, storage)

def gather_mesh(a, I, Jx):
    f = a.fn
    if I.ndim == 1 and Jx.ndim == 1:
        match_axes(I.axes[0], Jx.axes[0])
        r0, r1 = idx_resolver(I, a.axes[0]), idx_resolver(Jx, a.axes[1])
        if a.storage != 'dense':
            return SArray([fixaxis(1), I.axes[0]], lambda z, k: f(r0(k), r1(k)), a.kind, 'matrix')
        return SArray([I.axes[0]], lambda k: f(r0(k), r1(k)), a.kind)
    if I.ndim == 2 and I.axes[1].isfix(1) and (Jx.ndim == 1 or (Jx.ndim == 2 and Jx.axes[0].isfix(1))):
        fi, fj = I.fn, Jx.fn
        jj = (lambda j: fj(j)) if Jx.ndim == 1 else (lambda j: fj(0, j))
        axj = Jx.axes[-1]
        return SArray([I.axes[0], axj], lambda i, j: f(resolve(as_index(fi(i, 0)), a.axes[0]), resolve(as_index(jj(j)), a.axes[1])), a.kind, a.storage)
    raise Unsupported('mesh indexing')

def getitem2(a, key):
    """indexing of sparse matrices / numpy matrices: results stay 2-D"""
    if not isinstance(key, tuple): key = (key, slice(None))
    if len(key) != 2: raise Unsupported('matrix index')
    if any(isinstance(k, IxArr) for k in key):
        sels = [parse_sel(k, ax) for k, ax in zip(key, a.axes)]
        return gather_outer(a, sels, a.storage)
    if all(isinstance(k, (SArray, np.ndarray, list)) for k in key):
        key = [aslift(k) for k in key]
        return gather_mesh(a, key[0], key[1])
    sels = [parse_sel(k, ax) for k, ax in zip(key, a.axes)]
    if all(s.kind == 'int' for s in sels): return a.entry(*[s.v for s in sels])
    return gather_outer(a, sels, a.storage)

def depends(term, v):
    return isinstance(term, T) and v in term.fv()

def setitem(a, key, val):
    val = aslift(val)
    if not isinstance(key, tuple): key = (key,)
    key = list(key) + [slice(None)] * (a.ndim - len(key))
    if len(key) == 2 and a.ndim == 2 and all(isinstance(k, SArray) and k.ndim == 2 or isinstance(k, IxArr) for k in key) and not isinstance(key[0], IxArr):
        raise Unsupported('mesh assignment')
    # a vector assigned through a row-shaped index (numpy.matrix): same as the flat index
    if a.ndim == 1 and isinstance(key[0], SArray) and key[0].ndim == 2 and key[0].kind == 'i' and key[0].axes[0].isfix(1):
        k0 = key[0]; kf = k0.fn
        key = [SArray([k0.axes[1]], lambda i: kf(0, i), k0.kind)]
        if isinstance(val, SArray) and val.ndim == 2:
            if not val.axes[0].isfix(1): raise Unsupported('column assigned through a row index')
            wf = val.fn
            val = SArray([val.axes[1]], lambda i: wf(0, i), val.kind)
    # promote
    outer = any(isinstance(k, IxArr) for k in key)
    sels = [parse_sel(k, ax) for k, ax in zip(key, a.axes)]
    narr = sum(s.kind == 'arr' for s in sels)
    if narr > 1 and not outer: 
        return setitem_pair(a, sels, val)
    # shape of the target region
    taxes = []
    for s, ax in zip(sels, a.axes):
        if s.kind == 'int': continue
        taxes.append(s.v.axes[0] if s.kind == 'arr' else sel_axis(s, ax))
    if isinstance(val, SArray):
        vax = val.axes
        # drop leading ones
        axes, pt, pv = bcast(taxes, vax) if len(vax) <= len(taxes) else bcast(taxes, vax[-len(taxes):] if taxes else [])
        if len(vax) > len(taxes):
            if not all(x.isfix(1) for x in vax[:len(vax) - len(taxes)]): raise ShapeError('setitem')
            lead = len(vax) - len(taxes)
            vf0 = val.fn
            vf = lambda ix: vf0(*((0,) * lead + pv(ix)))
        else:
            vf0 = val.fn
            vf = lambda ix: vf0(*pv(ix))
        for x, y in zip(axes, taxes):
            if not x.same(y) and not mask_equiv(x, y): raise_shape(x, y)
    else:
        sv = t.ascond(val) if a.kind == 'b' else t.lift(val)
        vf = lambda ix: sv
    isb = a.kind == 'b'
    old = a.fn
    res = [idx_resolver(s.v, ax) if s.kind == 'arr' else None for s, ax in zip(sels, a.axes)]
    const_val = not isinstance(val, SArray)
    def newfn(*bix):
        conds = []; region = []; binders = []
        for s, ax, b, r in zip(sels, a.axes, bix, res):
            if s.kind == 'arr':
                X = s.v.axes[0]
                # identity selection: resolved index equals the axis index itself
                region.append(('arr', s, ax, b, r, X))
            else:
                c, x = sel_inv(s, b)
                if c is t.FALSE: return old(*bix)
                conds.append(c)
                if s.kind != 'int': region.append(('ix', x))
        # expand array selections into (cond, index, binder) alternatives
        alts = [([], [], [])]      # conds, indices, binders
        for r_ in region:
            if r_[0] == 'ix':
                alts = [(c, ix + [r_[1]], bd) for c, ix, bd in alts]
            else:
                _, s, ax, b, r, X = r_
                new = []
                for c, ix, bd in alts:
                    for wrap, p in axis_blocks(X):
                        if p.kind == 'fix':
                            for k in range(p.n):
                                e = ixeq(r(wrap(k)), b)
                                if e is not t.FALSE: new.append((c + [e], ix + [wrap(k)], bd))
                        else:
                            v = t.fresh(p.dim, 's')
                            rv = r(wrap(v))
                            e = ixeq(rv, b)
                            if e is t.FALSE: continue
                            # identity map v -> v
                            inner = rv
                            bb = b
                            while isinstance(inner, tuple): inner = inner[1]; bb = bb[1]
                            if inner is v and isinstance(bb, T):
                                new.append((c + [p.cond(bb)], ix + [wrap(bb)], bd))
                            else:
                                if not (isinstance(inner, T) and inner.op == 'if' and inner.a[0] in t.FACTS.injective and inner.a[1] == (v,)) and not const_val:
                                    if not injective_in(inner, v, p):
                                        if X.kind != 'dim' or isinstance(b, tuple): raise Unsupported('scatter through an index array not known to be injective')
                                        # repeated indices: the last value assigned stays
                                        mine = t.mkand(e, p.cond(v))
                                        last = nth(dimaxis(p.dim, lambda w, v=v, mine=mine: t.subst(mine, {v: w})), -1)
                                        new.append((c + [t.mkex(v, mine)], ix + [last], bd))
                                        continue
                                new.append((c + [e, p.cond(v)], ix + [wrap(v)], bd + [v]))
                alts = new
        if not alts: return old(*bix)
        base = t.mkand(*conds)
        o = old(*bix)
        if isb:
            hit = []; vals = []
            for c, ix, bd in alts:
                cc = t.mkand(*c); vv = t.mkand(cc, t.ascond(vf(tuple(ix))))
                for v in bd: cc = t.mkex(v, cc); vv = t.mkex(v, vv)
                hit.append(cc); vals.append(vv)
            h = t.mkand(base, t.mkor(*hit))
            return t.mkor(t.mkand(base, t.mkor(*vals)), t.mkand(t.ascond(o), t.mknot(h)))
        if const_val:
            hits = []
            for c, ix, bd in alts:
                cc = t.mkand(*c)
                for v in bd: cc = t.mkex(v, cc)
                hits.append(cc)
            return t.ite(t.mkand(base, t.mkor(*hits)), vf(tuple(alts[0][1])), o)
        if len(alts) == 1 and not alts[0][2]:
            c, ix, bd = alts[0]
            return t.ite(t.mkand(base, *c), vf(tuple(ix)), o)
        if all(not bd for c, ix, bd in alts):
            r = o
            for c, ix, bd in alts: r = t.ite(t.mkand(base, *c), vf(tuple(ix)), r)
            return r
        hit = t.ZERO; vv = t.ZERO
        for c, ix, bd in alts:
            k = t.br(t.mkand(base, *c)); w = t.mul(k, vf(tuple(ix)))
            for v in bd: k = t.sumover(v, k); w = t.sumover(v, w)
            hit = t.add(hit, k); vv = t.add(vv, w)
        return t.add(vv, t.mul(o, t.add(1, t.mul(-1, hit))))
    write(a, newfn)
    vk = skind(val)
    if ORDER[vk] > ORDER[a.kind] and a.kind != 'b':
        if a.storage == 'dense' and vk == 'c': raise ShapeError('complex assigned to real array')
        if a.kind == 'i' and vk == 'f': raise Unsupported('float assigned into integer array (truncation)')

def injective_in(inner, v, p):
    return False

def setitem_pair(a, sels, val):
    if a.storage != 'sparse' and a.storage != 'dense': raise Unsupported('pair assignment')
    I, Jx = sels[0].v, sels[1].v
    match_axes(I.axes[0], Jx.axes[0])
    ri, rj = idx_resolver(I, a.axes[0]), idx_resolver(Jx, a.axes[1])
    X = I.axes[0]
    old = a.fn
    if isinstance(val, SArray):
        match_axes(val.axes[-1], X); vfn = val.fn
        vf = (lambda k: vfn(k)) if val.ndim == 1 else (lambda k: vfn(0, k))
    else: vf = lambda k: t.lift(val)
    def identity_like():
        for wrap, p in axis_blocks(X):
            if p.kind == 'fix': return False
            v = t.fresh(p.dim)
            if not (ri(wrap(v)) is v or rj(wrap(v)) is v): return False
        return True
    if not identity_like(): raise Unsupported('pair assignment not injective')
    def newfn(i, j):
        hit = t.ZERO; vv = t.ZERO
        for wrap, p in axis_blocks(X):
            v = t.fresh(p.dim)
            k = t.br(t.mkand(p.cond(v), ixeq(ri(wrap(v)), i), ixeq(rj(wrap(v)), j)))
            hit = t.add(hit, t.sumover(v, k)); vv = t.add(vv, t.sumover(v, t.mul(k, vf(wrap(v)))))
        return t.add(vv, t.mul(old(i, j), t.add(1, t.mul(-1, hit))))
    write(a, newfn)

WRITE_LOG = []      # hook: called with the array written
def write(a, newfn):
    if a.base is None:
        for h in WRITE_LOG: h(a)
        a._setfn(newfn)
        return
    base = a.base; inv = a.vinv
    bold = base.fn
    isb = a.kind == 'b'
    def bf(*bix):
        c, vix = inv(bix)
        if c is t.FALSE: return bold(*bix)
        n = newfn(*vix)
        if c is t.TRUE: return n
        if isb:
            o = t.ascond(bold(*bix))
            return t.mkor(t.mkand(c, t.ascond(n)), t.mkand(t.mknot(c), o))
        return t.ite(c, n, bold(*bix))
    write(base, bf)

# ---- parts of an axis that the conditions of the path leave without elements ------------------------
def part_empty(p, path):
    if p.kind == 'fix': return p.n == 0
    from . import solve
    return solve.implied(path, any_over(p, lambda i: t.TRUE)) is False
def drop_empty(a, path):
    """the same array without empty parts of its axes; None when there are none"""
    if not isinstance(a, SArray): return None
    axes, maps, any_ = [], [], False
    for ax in a.axes:
        keep = [k for k, p in enumerate(ax.parts) if not part_empty(p, path)] if ax.kind == 'cat' else None
        if keep is None or len(keep) == len(ax.parts): axes.append(ax); maps.append(lambda i: i); continue
        parts = [ax.parts[k] for k in keep]
        if any(p.kind == 'fix' and q.kind == 'fix' for p, q in zip(parts, parts[1:])): return None
        any_ = True
        axes.append(cataxis(parts))
        if len(keep) > 1: maps.append(lambda i, keep=keep: (keep[i[0]], i[1]))
        elif keep: maps.append(lambda i, keep=keep: (keep[0], i))
        else: maps.append(lambda i: i)
    if not any_: return None
    g = a.fn
    r = SArray(axes, lambda *ix: g(*[m(i) for m, i in zip(maps, ix)]), a.kind, a.storage)
    return r
def _retry(f):
    import functools
    @functools.wraps(f)
    def g(*a, **k):
        try: return f(*a, **k)
        except Unsupported as e:
            if not str(e).startswith('axes '): raise
            path = path_now()
            if not path: raise
            hit = [False]
            def d(x):
                if isinstance(x, (list, tuple)): return type(x)(d(y) for y in x)
                r = drop_empty(x, path)
                if r is None: return x
                hit[0] = True
                return r
            b = [d(x) for x in a]
            if not hit[0]: raise
            return f(*b, **k)
    return g
matmul = _retry(matmul); elementwise = _retry(elementwise); concat = _retry(concat)

def named(x, size):
    """the same real value, with entries of more than `size` terms abbreviated by definitions (terms.define)"""
    if isinstance(x, T) and x.op in t.SCALAR:
        if not x.fv() and (any(y.op in ('fn', 'sum') for y in t.allterms(x)) or len(t.norm(x)) > size): return t.define(x, ())
        return x
    if isinstance(x, SArray) and x.ndim == 1 and x.kind == 'f' and x.storage == 'dense' and x.base is None:
        out = {}; some = False
        for wrap, p in axis_blocks(x.axes[0]):
            if p.kind == 'fix': return x
            v = t.iv('$nm', p.dim); k = wrap(v); e = t.lift(x.num(k)); c = p.cond(v)
            n = t.norm(t.mul(t.br(c), e))
            if len(n) > size and not (e.fv() - {v}):
                some = True; d = t.define(polyT_under(n, c), (v,)); out[blockkey(k)] = d.a[0]
        if not some: return x
        f = x._fn
        def fn(i):
            d = out.get(blockkey(i))
            return f(i) if d is None else t.mk('in', d, (leafof(i),), 'r')
        return SArray(x.axes, fn, 'f')
    return x
def blockkey(i):
    k = ()
    while isinstance(i, tuple): k += (i[0],); i = i[1]
    return k
def leafof(i):
    while isinstance(i, tuple): i = i[1]
    return i
def polyT_under(n, c): return t.polyT(n)
