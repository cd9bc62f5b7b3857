"""Hash-consed terms of the symbolic index calculus and their normal form.

Index terms   ('iv' name dim) ('if' fname args dim) ('ic' n)
Scalar terms  constants, inputs with symbolic indices, +, *, integer powers,
              bounded sums over an index variable of a dimension of arbitrary
              size, Iverson brackets, conj/abs/exp/... 
Conditions    index equality, polynomial (in)equalities, uninterpreted
              predicates, boolean connectives, bounded existentials.

`norm` maps a scalar term to a canonical polynomial whose monomials are
   coefficient * SUM over bound index variables of PROD brackets * PROD atoms^e
with Kronecker deltas eliminated.  Two terms with equal normal forms are equal
for every size of every dimension and every value of every input.
"""
from fractions import Fraction as Fr
import itertools, math, cmath

class Unsupported(Exception):
    """the construct is outside the verifier's reach (never a verdict)"""

class DivByZero(Exception):
    pass

_table = {}
_ids = itertools.count()

class T(object):
    __slots__ = ('op', 'a', 'dim', '_s', '_fv', 'id', '_n', '_sz')
    def __hash__(self): return self.id
    def __eq__(self, o):
        if o is self: return True
        if isinstance(o, (T, int, float, complex, Fr)) and not isinstance(o, bool) and self.op in SCALAR and (not isinstance(o, T) or o.op in SCALAR):
            return cmp_eq(self, lift(o))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return mknot(r) if isinstance(r, T) else (not r)
    def __repr__(self):
        s = self.s()
        return s if len(s) < 400 else s[:400] + '...'
    def s(self):
        if self._s is None:
            self._s = _ser(self)
        return self._s
    def fv(self):
        if self._fv is None:
            self._fv = _fv(self)
        return self._fv
    def sz(self):
        if self._sz is None:
            self._sz = 1 + sum(x.sz() for x in _subterms(self))
        return self._sz
    # -- arithmetic
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return add(self, mul(-1, o)) if _isnum(o) else NotImplemented
    def __rsub__(self, o): return add(o, mul(-1, self))
    def __mul__(self, o): return mul(self, o) if _isnum(o) else NotImplemented
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return mul(self, power(lift(o), -1)) if _isnum(o) else NotImplemented
    def __rtruediv__(self, o): return mul(o, power(self, -1))
    def __neg__(self): return mul(-1, self)
    def __pos__(self): return self
    def __pow__(self, o):
        if isinstance(o, T):
            if o.op == 'q' and o.a[1] == 0: o = o.a[0]
            else: return mk('fn', 'pow', self, o)
        if isinstance(o, float): o = Fr(o)
        if isinstance(o, Fr) and o.denominator == 1: o = int(o)
        if isinstance(o, int): return power(self, o)
        if o == Fr(1, 2): return mk('sqrt', self)
        return mk('fn', 'pow', self, lift(o))
    def __rpow__(self, o): return mk('fn', 'pow', lift(o), self)
    def __abs__(self): return mk('abs', self)
    def __lt__(self, o): return lt0(self - o) if _isnum(o) else NotImplemented
    def __gt__(self, o): return lt0(lift(o) - self) if _isnum(o) else NotImplemented
    def __le__(self, o): return mknot(lt0(lift(o) - self)) if _isnum(o) else NotImplemented
    def __ge__(self, o): return mknot(lt0(self - o)) if _isnum(o) else NotImplemented
    def __and__(self, o): return mkand(ascond(self), ascond(o)) if _iscondlike(o) else NotImplemented
    def __rand__(self, o): return mkand(ascond(o), ascond(self))
    def __or__(self, o): return mkor(ascond(self), ascond(o)) if _iscondlike(o) else NotImplemented
    def __ror__(self, o): return mkor(ascond(o), ascond(self))
    def __invert__(self): return mknot(ascond(self))
    def __bool__(self):
        if self.op == 'true': return True
        if self.op == 'false': return False
        raise Unsupported('truth value of a symbolic term used outside the interpreter: %r' % self)
    @property
    def real(self): return real(self)
    @property
    def imag(self): return imag(self)
    def conj(self): return mk('conj', self)
    conjugate = conj

def _isnum(o):
    return isinstance(o, (T, int, float, complex, Fr)) or hasattr(o, 'to_T')
def _iscondlike(o):
    return isinstance(o, bool) or isinstance(o, T)

COND = frozenset(['true', 'false', 'eqi', 'lt0', 'eq0', 'pred', 'enum', 'not', 'and', 'or', 'ex'])
INDEX = frozenset(['iv', 'if', 'ic'])
SCALAR = frozenset(['q', 'pi', 'inf', 'in', 'add', 'mul', 'pow', 'sum', 'br', 'conj', 'abs', 'arg', 'exp', 'sqrt', 'fn', 'idx', 'P', 'E', 'X', 'pw', 'nan'])

def mk(op, *a, dim=None):
    key = (op, a, dim)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.a = a; t.dim = dim; t._s = None; t._fv = None; t._n = None; t._sz = None
        t.id = next(_ids)
        _table[key] = t
    return t

def _subterms(t):
    for x in t.a:
        if isinstance(x, T): yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T): yield y
                elif isinstance(y, tuple):     # mono content of 'P'
                    for z in _walk_mono(y): yield z

def _walk_mono(y):
    for z in y:
        if isinstance(z, T): yield z
        elif isinstance(z, (tuple, frozenset)):
            for w in _walk_mono(z): yield w

def _ser(t):
    op = t.op
    if op == 'iv': return t.a[0]
    if op == 'ic': return '#%d' % t.a[0]
    if op == 'if': return '%s(%s)' % (t.a[0], ','.join(x.s() for x in t.a[1]))
    if op == 'q':
        return str(t.a[0]) if t.a[1] == 0 else '(%s+%sj)' % t.a
    if op == 'in': return '%s[%s]' % (t.a[0], ','.join(x.s() for x in t.a[1]))
    if op == 'P': return '{' + ' + '.join(sorted(_sermono(m, c) for m, c in t.a[0])) + '}'
    if op == 'enum': return '%s[%s]==%s' % (t.a[0], ','.join(x.s() for x in t.a[1]), t.a[2])
    if op == 'pred': return '%s[%s]' % (t.a[0], ','.join(x.s() for x in t.a[1]))
    if op in ('sum', 'ex'): return '%s(%s:%s,%s)' % (op, t.a[0].s(), t.a[0].dim, t.a[1].s() if isinstance(t.a[1], T) else str(t.a[1]))
    return '%s(%s)' % (op, ','.join(x.s() if isinstance(x, T) else str(x) for x in t.a))

def _sercoef(c):
    return str(c[0]) if c[1] == 0 else '(%s+%sj)' % c

def _sermono(m, c):
    sums, conds, atoms = m
    s = ''
    if sums: s += 'S' + ','.join(v.s() + ':' + str(v.dim) for v in sums) + ' '
    s += ''.join('[' + x + ']' for x in sorted(k.s() for k in conds))
    s += '*'.join(sorted('%s^%s' % (k.s(), e) for k, e in atoms))
    return '%s %s' % (_sercoef(c), s)

_efs = frozenset()
def _fv(t):
    op = t.op
    if op == 'iv': return frozenset([t])
    if op in ('sum', 'ex'):
        return t.a[1].fv() - frozenset([t.a[0]])
    if op == 'P':
        r = set()
        for (sums, conds, atoms), c in t.a[0]:
            q = set()
            for x in conds: q |= x.fv()
            for x, e in atoms: q |= x.fv()
            r |= q - set(sums)
        return frozenset(r)
    r = _efs
    for x in _subterms(t):
        f = x.fv()
        if f: r = r | f
    return r

# ---- index terms -----------------------------------------------------------
def iv(name, dim): return mk('iv', name, dim=dim)
_fresh = itertools.count()
def fresh(dim, hint='k'): return mk('iv', '%s~%d' % (hint, next(_fresh)), dim=dim)
INVERSE = {}         # index functions that undo each other: name -> name
def ifun(name, args, dim):
    if name in INVERSE and args[0].op == 'if' and args[0].a[0] == INVERSE[name] and args[0].a[1][1:] == tuple(args[1:]): return args[0].a[1][0]
    return mk('if', name, tuple(args), dim=dim)
def ic(n): return mk('ic', int(n))

# ---- scalar constructors -----------------------------------------------------
def q(re, im=0): return mk('q', Fr(re), Fr(im))
ZERO = q(0); ONE = q(1); PI = mk('pi'); INF = mk('inf'); J = q(0, 1); HALF = q(Fr(1, 2)); NAN = mk('nan')
TRUE = mk('true'); FALSE = mk('false')

def lift(x):
    if isinstance(x, T):
        if x.op in COND: return br(x)
        if x.op in INDEX: return mk('idx', x)
        return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, int): return q(x)
    if isinstance(x, Fr): return q(x)
    if hasattr(x, 'to_T'): return x.to_T()
    if hasattr(x, 'item') and getattr(x, 'shape', None) == (): return lift(x.item())
    if isinstance(x, float):
        if x == math.pi: return PI
        if math.isinf(x): return INF if x > 0 else mul(-1, INF)
        if math.isnan(x): return NAN
        return q(Fr(repr(float(x))))
    if isinstance(x, complex):
        a, b = lift(x.real), lift(x.imag)
        return add(a, mul(J, b))
    raise Unsupported('cannot lift %r' % (type(x),))

def add(*xs):
    out = []
    re = Fr(0); im = Fr(0)
    for x in xs:
        if not _isnum(x): return NotImplemented
        x = lift(x)
        for y in (x.a if x.op == 'add' else (x,)):
            if y.op == 'q': re += y.a[0]; im += y.a[1]
            else: out.append(y)
    if re or im or not out: out.append(q(re, im))
    if len(out) == 1: return out[0]
    return mk('add', *out)

def mul(*xs):
    out = []
    re = Fr(1); im = Fr(0)
    for x in xs:
        if not _isnum(x): return NotImplemented
        x = lift(x)
        for y in (x.a if x.op == 'mul' else (x,)):
            if y.op == 'q': re, im = re * y.a[0] - im * y.a[1], re * y.a[1] + im * y.a[0]
            else: out.append(y)
    if re == 0 and im == 0 and not any(_mentions_inf(x) for x in out): return ZERO
    if re == 0 and im == 0: raise Unsupported('0*inf')
    if not out: return q(re, im)
    if not (re == 1 and im == 0): out.insert(0, q(re, im))
    if len(out) == 1: return out[0]
    return mk('mul', *out)

def _mentions_inf(t):
    return t.op == 'inf'

def power(x, n):
    x = lift(x)
    if n == 1: return x
    if n == 0: return ONE
    if x.op == 'q':
        a, b = x.a
        if n < 0:
            d = a * a + b * b
            if d == 0: return mk('fn', 'zerodiv', x, q(n))
            a, b = a / d, -b / d; n = -n
        re, im = Fr(1), Fr(0)
        for _ in range(n): re, im = re * a - im * b, re * b + im * a
        return q(re, im)
    if x.op == 'pow': return power(x.a[0], x.a[1] * n) if n * x.a[1] != 0 else ONE
    return mk('pow', x, n)

def sumover(v, body):
    body = lift(body)
    if body is ZERO: return ZERO
    return mk('sum', v, body)

def br(c):
    if isinstance(c, bool): return ONE if c else ZERO
    if c.op == 'true': return ONE
    if c.op == 'false': return ZERO
    if c.op not in COND: return br(ascond(c))
    return mk('br', c)

def ite(c, a, b):
    if isinstance(c, bool): return lift(a) if c else lift(b)
    if c is TRUE: return lift(a)
    if c is FALSE: return lift(b)
    a = lift(a); b = lift(b)
    if a is b: return a
    k = br(c)
    return add(mul(k, a), mul(add(1, mul(-1, k)), b)) if not (_hasinf(a) or _hasinf(b)) else mk('fn', 'ite', k, a, b)

def _hasinf(t):
    return t.op == 'inf' or t.op == 'nan' or (t.op in ('mul', 'add', 'fn', 'pow') and any(isinstance(x, T) and _hasinf(x) for x in t.a))

def real(z):
    z = lift(z)
    if z.op == 'q': return q(z.a[0])
    return mul(HALF, add(z, mk('conj', z)))
def imag(z):
    z = lift(z)
    if z.op == 'q': return q(z.a[1])
    return mul(q(0, Fr(-1, 2)), add(z, mul(-1, mk('conj', z))))
def conj(z): return mk('conj', lift(z))
def absv(z):
    z = lift(z)
    if z.op == 'q' and z.a[1] == 0: return q(abs(z.a[0]))
    return mk('abs', z)
def expv(z): return mk('exp', lift(z))
def argv(z): return mk('arg', lift(z))
def sqrtv(z): return mk('sqrt', lift(z))
def fn(name, *args): return mk('fn', name, *[lift(x) for x in args])
def inp(name, idx, kind='r'): return mk('in', name, tuple(idx), kind)

# ---- conditions ---------------------------------------------------------------
def ascond(x):
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, T):
        if x.op in COND: return x
        if x.op == 'br': return x.a[0]
        return mknot(eq0(lift(x)))
    if isinstance(x, (int, float)): return TRUE if x else FALSE
    if hasattr(x, 'nonempty'): return x.nonempty()
    raise Unsupported('condition from %r' % (type(x),))

OFFS = {}       # index shifts by a constant: name -> amount
def eqi(a, b):
    if a is b: return TRUE
    if a.op == 'ic' and b.op == 'ic': return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ic' and y.op == 'if' and y.a[0] in OFFS:
            k = x.a[0] - OFFS[y.a[0]]
            return eqi(y.a[1][0], ic(k)) if k >= 0 else FALSE
    if a.s() > b.s(): a, b = b, a
    return mk('eqi', a, b)

def lt0(x):
    x = lift(x)
    if x.op == 'q': return TRUE if x.a[0] < 0 else FALSE
    return mk('lt0', x)
def eq0(x):
    x = lift(x)
    if x.op == 'q': return TRUE if x.a == (0, 0) else FALSE
    return mk('eq0', x)
def cmp_eq(a, b):
    if a is b: return TRUE
    if a.op == 'idx' and b.op == 'idx': return eqi(a.a[0], b.a[0])
    return eq0(add(a, mul(-1, b)))
def mknot(c):
    c = ascond(c)
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.a[0]
    return mk('not', c)
def mkand(*cs):
    out = []
    for c in cs:
        c = ascond(c)
        if c is FALSE: return FALSE
        if c is TRUE: continue
        if c not in out: out.append(c)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', *out)
def mkor(*cs):
    out = []
    for c in cs:
        c = ascond(c)
        if c is TRUE: return TRUE
        if c is FALSE: continue
        if c not in out: out.append(c)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', *out)
def mkex(v, c):
    c = ascond(c)
    if c is FALSE: return FALSE
    return mk('ex', v, c)
def pred(name, idx): return mk('pred', name, tuple(idx))

# ---- substitution on terms -------------------------------------------------
def subst(t, m):
    """m: {T: T} replacement of index terms (variables or applications)"""
    if not m: return t
    f = t.fv()
    if not f and all(k.fv() for k in m): return t
    if len(m) <= 3:
        ks = tuple(sorted((k.id, v.id) for k, v in m.items() if (k in f if k.op == 'iv' else k.fv() <= f)))
        if not ks: return t
        key = (t.id, ks)
        r = _substc.get(key)
        if r is None:
            if len(_substc) > 3000000: _substc.clear()
            r = _substc[key] = _subst(t, m, {})
        return r
    return _subst(t, m, {})
_substc = {}

def _touch(t, m):
    # quick filter: if all keys are variables use fv
    f = t.fv()
    for k in m:
        if k.op == 'iv':
            if k in f: return True
        else:
            if k.fv() <= f: return True
    return False

def _subst(t, m, memo):
    r = memo.get(t)
    if r is not None: return r
    if t in m: return m[t]
    if not _touch(t, m):
        memo[t] = t
        return t
    op = t.op
    if op == 'iv' or op == 'ic': r = t
    elif op == 'if': r = ifun(t.a[0], tuple(_subst(x, m, memo) for x in t.a[1]), t.dim)
    elif op == 'in': r = mk('in', t.a[0], tuple(_subst(x, m, memo) for x in t.a[1]), t.a[2])
    elif op == 'pred': r = mk('pred', t.a[0], tuple(_subst(x, m, memo) for x in t.a[1]))
    elif op == 'enum': r = mk('enum', t.a[0], tuple(_subst(x, m, memo) for x in t.a[1]), t.a[2], t.a[3])
    elif op in ('sum', 'ex'):
        v, b = t.a
        m2 = {k: x for k, x in m.items() if v not in k.fv()}
        if any(v in x.fv() for x in m2.values()):
            v2 = fresh(v.dim)
            b = _subst(b, {v: v2}, {}); v = v2
        b2 = _subst(b, m2, {}) if (m2 is not m and len(m2) != len(m)) else _subst(b, m2, memo if v is t.a[0] else {})
        r = mk(op, v, b2)
    elif op == 'P':
        r = polyT(psubst(dict(t.a[0]), m))
    elif op == 'eqi':
        r = eqi(_subst(t.a[0], m, memo), _subst(t.a[1], m, memo))
    else:
        r = mk(op, *[_subst(x, m, memo) if isinstance(x, T) else x for x in t.a], dim=t.dim)
        if op == 'lt0' or op == 'eq0':
            x = r.a[0]
            if x.op == 'q': r = (lt0 if op == 'lt0' else eq0)(x)
    memo[t] = r
    return r

# ---- facts -----------------------------------------------------------------
class Facts(object):
    def __init__(self):
        self.injective = set()       # index functions known injective
        self.disjoint = set()        # pairs of index functions with disjoint ranges
        self.symmetric = {}
        self.tight = set()           # index functions attaining the last position of their dimension
    def copy(self):
        f = Facts(); f.injective = set(self.injective); f.disjoint = set(self.disjoint); return f
FACTS = Facts()
def reset_facts():
    global FACTS
    FACTS.injective = set(); FACTS.disjoint = set()
    clear_memo()
def clear_memo():
    for t in list(_table.values()): t._n = None

# ---- polynomials -------------------------------------------------------------
# Poly: dict  mono -> (Fr re, Fr im);  mono = (sums tuple, conds frozenset, atoms frozenset of (T, exp))
UNIT = ((), frozenset(), frozenset())

def pconst(re, im=0):
    re = Fr(re); im = Fr(im)
    return {UNIT: (re, im)} if (re or im) else {}

def padd(p, r, s=1):
    out = dict(p)
    for m, c in r.items():
        c0 = out.get(m)
        if c0 is None:
            out[m] = c if s == 1 else (c[0] * s, c[1] * s)
            continue
        n = (c0[0] + c[0] * s, c0[1] + c[1] * s if c0[1] or c[1] else c[1])
        if n[0] == 0 and n[1] == 0: out.pop(m, None)
        else: out[m] = n
    return out

def pscale(p, re, im=0):
    if im == 0:
        if re == 0: return {}
        if re == 1: return dict(p)
        if re == -1: return {m: (-c[0], -c[1]) for m, c in p.items()}
        return {m: (c[0] * re, c[1] * re if c[1] else c[1]) for m, c in p.items()}
    return {m: (c[0] * re - c[1] * im, c[0] * im + c[1] * re) for m, c in p.items()}

def _rename_apart(m, avoid):
    """rename bound variables of mono m that are in avoid"""
    sums, conds, atoms = m
    clash = [v for v in sums if v in avoid]
    if not clash: return m
    mp = {v: fresh(v.dim) for v in clash}
    return (tuple(mp.get(v, v) for v in sums), frozenset(subst(x, mp) for x in conds),
            frozenset((subst(x, mp), e) for x, e in atoms))

MAXMONO = 60000
def pmul(p, r):
    if len(p) == 1 and UNIT in p: return pscale(r, *p[UNIT])
    if len(r) == 1 and UNIT in r: return pscale(p, *r[UNIT])
    if len(p) * len(r) > MAXMONO: raise Unsupported('polynomial too large')
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in r.items():
            if not c1[1] and not c2[1]: c = (c1[0] * c2[0], c1[1])
            else: c = (c1[0] * c2[0] - c1[1] * c2[1], c1[0] * c2[1] + c1[1] * c2[0])
            if m1[0] and m2[0]:
                mm2 = _rename_apart(m2, set(m1[0]) | _mfv(m1))
            elif m2[0]:
                mm2 = _rename_apart(m2, _mfv(m1))
            else: mm2 = m2
            mm1 = m1
            if m1[0]:
                mm1 = _rename_apart(m1, _mfv(mm2) | set(mm2[0]))
            q_ = _combine(mm1, mm2)
            for m, k in q_.items():
                k = (k[0] * c[0] - k[1] * c[1], k[0] * c[1] + k[1] * c[0])
                c0 = out.get(m)
                if c0 is None: out[m] = k
                else:
                    n = (c0[0] + k[0], c0[1] + k[1])
                    if n[0] == 0 and n[1] == 0: del out[m]
                    else: out[m] = n
    return out

def _mfv(m):
    r = set()
    for x in m[1]: r |= x.fv()
    for x, e in m[2]: r |= x.fv()
    return r

def _combine(m1, m2):
    atoms = dict(m1[2])
    for x, e in m2[2]:
        n = atoms.get(x, 0) + e
        if n == 0: atoms.pop(x, None)
        else: atoms[x] = n
    return simplify(m1[0] + m2[0], m1[1] | m2[1], atoms)

def _needs_reduce(x, e):
    return (x.op == 'abs' and (abs(e) >= 2 or (e == -1 and x.a[0].op == 'in'))) or (x.op == 'sqrt' and abs(e) >= 2) or (x.op == 'pw' and e >= 1)

_simp_memo = {}
def simplify(sums, conds, atoms):
    """canonical Poly of SUM_sums PROD[conds] PROD atoms^e ; parts already normalised"""
    key = (sums, conds, frozenset(atoms.items()))
    r = _simp_memo.get(key)
    if r is None:
        r = _simplify(sums, conds, atoms)
        _simp_memo[key] = r
    return r

def _simplify(sums, conds, atoms):
    # atom reductions (abs^2, sqrt^2, inverse-power expansion)
    for x, e in atoms.items():
        if _needs_reduce(x, e):
            rest = dict(atoms); del rest[x]
            base = {((), conds, frozenset(rest.items())): (Fr(1), Fr(0))}
            if x.op == 'abs':
                k = int(abs(e) // 2) * (1 if e > 0 else -1)
                z = x.a[0]
                if z.op == 'in': k = int(e // 2)
                zz = pmul(norm(z), norm(conj(z)))
                f = ppow(zz, k)
                rem = e - 2 * k
            elif x.op == 'sqrt':
                k = int(abs(e) // 2) * (1 if e > 0 else -1)
                f = ppow(norm(x.a[0]), k)
                rem = e - 2 * k
            else:
                f = ppow(norm(x.a[0]), int(e)); rem = 0
            if rem: f = pmul(f, {((), frozenset(), frozenset([(x, rem)])): (Fr(1), Fr(0))})
            return psum(sums, pmul(base, f))
    # index equalities
    eqs = [c for c in conds if c.op == 'eqi']
    for c in sorted(eqs, key=lambda t: t.s()):
        a, b = c.a
        # injectivity / disjointness
        if a.op == 'if' and b.op == 'if':
            if a.a[0] == b.a[0] and a.a[0] in FACTS.injective and len(a.a[1]) == 1:
                n = eqi(a.a[1][0], b.a[1][0])
                nc = set(conds); nc.discard(c)
                if n is FALSE: return {}
                if n is not TRUE: nc.add(n)
                return simplify(sums, frozenset(nc), atoms)
            if (a.a[0], b.a[0]) in FACTS.disjoint or (b.a[0], a.a[0]) in FACTS.disjoint:
                return {}
        for x, y in ((a, b), (b, a)):
            if x.op == 'iv' and x in sums and x not in y.fv() and (y.dim == x.dim or y.op == 'ic'):
                ns = tuple(v for v in sums if v is not x)
                nc = set(conds); nc.discard(c)
                return _rebuild(ns, nc, atoms, {x: y})
    # orient remaining equalities and rewrite other parts
    for c in sorted(eqs, key=lambda t: t.s()):
        a, b = c.a
        ka, kb = _ixord(a, sums), _ixord(b, sums)
        if ka > kb: a, b = b, a        # b big -> a small
        if b.op == 'ic': a, b = b, a
        m = {b: a}
        if a in b.fv() and b.op == 'iv': continue
        rest = [x for x in conds if x is not c]
        if any(_contains(x, b) for x in rest) or any(_contains(x, b) for x in atoms):
            return psum(sums, pmul({((), frozenset([c]), frozenset()): (Fr(1), Fr(0))},
                                  _rebuild((), set(rest), atoms, m)), pre=True)
    # a quantity known to be zero
    for c in conds:
        if c.op == 'eq0':
            z = norm(c.a[0])
            if len(z) == 1:
                (zm, zc), = z.items()
                if not zm[0] and not zm[1] and len(zm[2]) == 1:
                    (zx, ze), = zm[2]
                    if atoms.get(zx, 0) > 0: return {}
    # an existence witnessed by the other conditions
    for c in conds:
        if c.op == 'ex' and c.a[1].op == 'P' and _witnessed(c, conds): return simplify(sums, conds - frozenset([c]), atoms)
    # enumerations
    en = {}
    for c in conds:
        if c.op == 'enum':
            k = (c.a[0], c.a[1])
            if k in en and en[k] != c.a[2]: return {}
            en[k] = c.a[2]
    m = (tuple(sums), frozenset(conds), frozenset(atoms.items()))
    if sums: m = canon(m)
    return {m: (Fr(1), Fr(0))}

def _witnessed(c, conds):
    v, b = c.a
    p = norm(b)
    if len(p) != 1: return False
    (m, k), = p.items()
    if k != ONEC or m[0] or m[2]: return False
    rest = [x for x in conds if x is not c]
    cand = set(x for y in rest for x in y.fv() if x.dim == v.dim)
    for w in sorted(cand, key=lambda z: z.s()):
        ok = True
        for x in m[1]:
            n = subst(x, {v: w})
            if n is TRUE or n in conds: continue
            q = normc(n)
            if q == pconst(1): continue
            if len(q) == 1:
                (m2, k2), = q.items()
                if k2 == ONEC and not m2[0] and not m2[2] and m2[1] <= conds: continue
            ok = False; break
        if ok: return True
    return False

def _ixord(t, sums):
    # prefer constants, then free variables, then bound variables, then applications
    if t.op == 'ic': k = 0
    elif t.op == 'iv': k = 2 if t in sums else 1
    else: k = 3
    return (k, t.sz(), t.s())

def _contains(t, x):
    if t is x: return True
    if not (x.fv() <= t.fv()): return False
    if x.op == 'iv': return x in t.fv()
    return any(_contains(y, x) for y in _subterms(t))

def _rebuild(sums, conds, atoms, m):
    out = pconst(1)
    same_c = set(); same_a = {}
    chc = []; cha = []
    for c in conds:
        n = subst(c, m)
        if n is c: same_c.add(c)
        else: chc.append(n)
    for x, e in atoms.items():
        n = subst(x, m)
        if n is x: same_a[x] = same_a.get(x, 0) + e
        else: cha.append((n, e))
    for n in chc:
        out = pmul(out, normc(n))
        if not out: return {}
    for n, e in cha:
        out = pmul(out, ppow_atom(n, e))
        if not out: return {}
    if same_c or same_a:
        out = pmul(out, simplify((), frozenset(same_c), same_a))
    return psum(sums, out)

def ppow_atom(n, e):
    if n.op in ('E', 'X'):
        p = norm(mk('exp', mk('mul', J, n.a[0]) if n.op == 'E' else n.a[0]))
        return _ppow_frac(p, e)
    if n.op == 'pw':
        p = norm(n.a[0])
        return ppow(p, int(e))
    return ppow(norm(n), e) if isinstance(e, int) or Fr(e).denominator == 1 else _ppow_frac(norm(n), e)

def _ppow_frac(p, e):
    if len(p) == 1:
        (m, c), = p.items()
        if not m[0] and not m[1] and c == (1, 0):
            return simplify((), frozenset(), {x: k * e for x, k in m[2]})
    e = Fr(e)
    if e.denominator == 1: return ppow(p, int(e))
    raise Unsupported('fractional power')

def psum(sums, p, pre=False):
    """SUM over sums of Poly p"""
    if not sums: return p
    out = {}
    for m, c in p.items():
        clash = [v for v in m[0] if v in sums]
        if clash: m = _rename_apart(m, set(sums))
        # remove only those bound vars; simplify eliminates deltas
        r = simplify(tuple(sums) + m[0], m[1], dict(m[2]))
        for k, kc in r.items():
            n = (kc[0] * c[0] - kc[1] * c[1], kc[0] * c[1] + kc[1] * c[0])
            c0 = out.get(k)
            if c0 is not None: n = (n[0] + c0[0], n[1] + c0[1])
            if n[0] == 0 and n[1] == 0: out.pop(k, None)
            else: out[k] = n
    return out

def canon(m):
    sums, conds, atoms = m
    free = set(v for v in _mfv(m)) - set(sums)
    freen = set(v.a[0] for v in free)
    names = ('@%d' % i for i in itertools.count())
    names = list(itertools.islice((n for n in names if n not in freen), len(sums)))
    if len(sums) == 1:
        v = sums[0]
        nv = iv(names[0], v.dim)
        if nv is v: return m
        mp = {v: nv}
        return ((nv,), frozenset(subst(x, mp) for x in conds), frozenset((subst(x, mp), e) for x, e in atoms))
    parts = [(x, None) for x in conds] + [(x, e) for x, e in atoms]
    parts = [(x, e) for x, e in parts if x.fv() & set(sums)]
    colour = {v: str(v.dim) for v in sums}
    for rnd in range(3):
        sig = {}
        for v in sums:
            ss = []
            for x, e in parts:
                if v in x.fv():
                    mp = {w: iv('?' + colour[w], w.dim) for w in sums if w is not v}
                    mp[v] = iv('*', v.dim)
                    ss.append(subst(x, mp).s() + '^%s' % e)
            sig[v] = colour[v] + '|' + '&'.join(sorted(ss))
        order = sorted(set(sig.values()))
        colour = {v: '%s.%d' % (v.dim, order.index(sig[v])) for v in sums}
        if len(order) == len(sums): break
    groups = {}
    for v in sums: groups.setdefault(order.index(sig[v]), []).append(v)
    gl = [groups[k] for k in sorted(groups)]
    best = None
    nperm = 1
    for g in gl: nperm *= math.factorial(len(g))
    cands = itertools.product(*[itertools.permutations(g) for g in gl])
    if nperm > 720: cands = itertools.islice(cands, 720)
    for cand in cands:
        seq = [v for g in cand for v in g]
        tmp = {v: iv(n, v.dim) for v, n in zip(seq, names)}
        nc = frozenset(subst(x, tmp) for x in conds)
        na = frozenset((subst(x, tmp), e) for x, e in atoms)
        if nperm == 1:
            return (tuple(iv(n, v.dim) for v, n in zip(seq, names)), nc, na)
        s = ''.join(sorted(x.s() for x in nc)) + '|' + ''.join(sorted('%s^%s' % (x.s(), e) for x, e in na))
        if best is None or s < best[0]:
            best = (s, (tuple(iv(n, v.dim) for v, n in zip(seq, names)), nc, na))
    return best[1]

def polyT(p):
    """freeze a Poly as a canonical term"""
    if not p: return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == UNIT: return q(*c)
        if c == (1, 0) and not m[0] and not m[1] and len(m[2]) == 1:
            (x, e), = m[2]
            if e == 1 and x.op != 'pw': return x
    return mk('P', tuple(sorted(p.items(), key=lambda mc: _sermono(mc[0], mc[1]))))

def psubst(p, m):
    out = {}
    for mono, c in p.items():
        sums, conds, atoms = mono
        mm = {k: v for k, v in m.items() if not (k.fv() & set(sums))}
        if not mm:
            out = padd(out, {mono: c}); continue
        tv = set()
        for k, v in mm.items(): tv |= v.fv()
        if tv & set(sums):
            sums, conds, atoms = _rename_apart(mono, tv)
        r = _rebuild(sums, set(conds), dict(atoms), mm)
        out = padd(out, pscale(r, *c))
    return out

def ppow(p, n):
    if isinstance(n, Fr):
        if n.denominator != 1: return _ppow_frac(p, n)
        n = int(n)
    if n == 0: return pconst(1)
    if n < 0: return ppow(pinv(p), -n)
    r = p
    for _ in range(n - 1): r = pmul(r, p)
    return r

def _topconds(p):
    """conditions in sum-free monomials / outside bound variables"""
    s = set()
    for (sums, conds, atoms), c in p.items():
        for k in conds:
            if not (k.fv() & set(sums)): s.add(k)
    return s

def _assume(p, c, val):
    """Poly p under truth value of atomic condition c"""
    out = {}
    for (sums, conds, atoms), k in p.items():
        if c in conds:
            if not val: continue
            conds = conds - frozenset([c])
        elif val and c.op == 'enum':
            if any(d.op == 'enum' and d.a[:2] == c.a[:2] and d is not c for d in conds): continue
        out = padd(out, {(sums, conds, atoms): k})
    return out

def split(p, f):
    """apply the non-polynomial f (Poly without top brackets -> Poly) case by case"""
    tc = _topconds(p)
    if not tc: return f(p)
    c = min(tc, key=lambda t: t.s())
    pc = {((), frozenset([c]), frozenset()): (Fr(1), Fr(0))}
    a = split(_assume(p, c, True), f)
    b = split(_assume(p, c, False), f)
    if a == b: return a
    return padd(pmul(pc, a), pmul(padd(pconst(1), pc, -1), b))

def _try(f, dead):
    try: return f()
    except DivByZero: return dead

def pinv(p):
    return split(p, _pinv1)

def _pinv1(p):
    if not p: return {((), frozenset(), frozenset([(mk('fn', 'zerodiv', ZERO, q(-1)), 1)])): (Fr(1), Fr(0))}
    if len(p) == 1:
        (m, c), = p.items()
        if not m[0]:
            d = c[0] * c[0] + c[1] * c[1]
            return pscale(simplify((), frozenset(), {x: -e for x, e in m[2]}), c[0] / d, -c[1] / d)
    # content extraction over sum-free atoms
    cont = None
    for (sums, conds, atoms), c in p.items():
        d = {x: e for x, e in atoms if not (x.fv() & set(sums))}
        if cont is None: cont = d
        else: cont = {x: min(e, d[x]) for x, e in cont.items() if x in d}
        if not cont: break
    out = pconst(1)
    if cont:
        inv = simplify((), frozenset(), {x: -e for x, e in cont.items()})
        p = pmul(p, inv)
        out = inv
        if len(p) == 1: return pmul(out, _pinv1(p))
    items = sorted(p.items(), key=lambda mc: _sermono(mc[0], (Fr(1), Fr(0))))
    c = items[0][1]
    d = c[0] * c[0] + c[1] * c[1]
    ci = (c[0] / d, -c[1] / d)
    p1 = pscale(p, *ci)
    at = mk('pw', polyT(p1))
    return pmul(out, {((), frozenset(), frozenset([(at, -1)])): ci})

def pconj(p):
    out = {}
    for (sums, conds, atoms), c in p.items():
        r = pconst(1)
        keep = {}
        for x, e in atoms:
            if x.op == 'in':
                if x.a[2] == 'c': keep[mk('conj', x)] = e
                else: keep[x] = e
            elif x.op == 'conj': keep[x.a[0]] = e
            elif x.op == 'E': keep[x] = -e
            elif x.op in ('abs', 'arg', 'X', 'idx', 'pi', 'inf', 'sqrt', 'nan'): keep[x] = e
            elif x.op == 'pw':
                r = pmul(r, ppow(pconj(norm(x.a[0])), int(e)))
            elif x.op == 'fn':
                if x.a[0] in COMPLEXFN: keep[mk('conj', x)] = e
                else: keep[x] = e
            else: raise Unsupported('conj of atom ' + x.op)
        at = {}
        t = simplify((), conds, keep)
        r = pmul(r, t)
        out = padd(out, pscale(psum(sums, r), c[0], -c[1]))
    return out

COMPLEXFN = set(['csolve'])

def pisreal(p): return pconj(p) == p

ZEROC = (Fr(0), Fr(0))
ONEC = (Fr(1), Fr(0))
def patom(x, e=1): return {((), frozenset(), frozenset([(x, e)])): ONEC}

def norm(t):
    if t._n is not None: return t._n
    r = _norm(t)
    t._n = r
    return r

def _norm(t):
    op = t.op
    if op == 'q': return pconst(*t.a)
    if op in ('pi', 'inf', 'nan'): return patom(t)
    if op == 'in':
        k = t.a[2]
        if k.startswith('e('):
            vals = [Fr(x) for x in k[2:-1].split(',')]
            last = vals[-1]
            out = pconst(last)
            for v in vals[:-1]:
                out = padd(out, pscale({((), frozenset([mk('enum', t.a[0], t.a[1], v, k)]), frozenset()): ONEC}, v - last))
            return out
        return patom(t)
    if op == 'add':
        out = {}
        for x in t.a: out = padd(out, norm(x))
        return out
    if op == 'mul':
        out = norm(t.a[0])
        for x in t.a[1:]:
            if not out: return out
            out = pmul(out, norm(x))
        return out
    if op == 'pow': return ppow(norm(t.a[0]), t.a[1])
    if op == 'sum': return psum((t.a[0],), norm(t.a[1])) if t.a[0] not in _bound_conflict(t) else None
    if op == 'br': return normc(t.a[0])
    if op == 'conj':
        if t.a[0].op == 'in' and t.a[0].a[2] == 'c': return patom(t)
        if t.a[0].op == 'fn' and t.a[0].a[0] in COMPLEXFN: return patom(t)
        return pconj(norm(t.a[0]))
    if op == 'P':
        out = {}
        for m, c in t.a[0]: out = padd(out, {m: c})
        return out
    if op == 'pw':
        return norm(t.a[0])
    if op == 'abs': return split(norm(t.a[0]), _pabs)
    if op == 'exp': return split(norm(t.a[0]), _pexp)
    if op == 'E': return patom(t)
    if op == 'X': return patom(t)
    if op == 'arg': return split(norm(t.a[0]), _parg)
    if op == 'sqrt': return split(norm(t.a[0]), _psqrt)
    if op == 'idx': return patom(t)
    if op == 'fn':
        args = [norm(x) if isinstance(x, T) else x for x in t.a[1:]]
        if t.a[0] == 'ite':
            c = args[0]
            if c == pconst(1): return args[1]
            if not c: return args[2]
            return split_many(args, lambda a: (a[1] if a[0] == pconst(1) else a[2]) if not a[0] or a[0] == pconst(1)
                              else patom(mk('fn', 'ite', *[polyT(x) for x in a])))
        if t.a[0] in ('max', 'min') and len(args) == 2:
            d = split_many(args, lambda a: _pminmax(t.a[0], a))
            return d
        return split_many(args, lambda a: patom(mk('fn', t.a[0], *[polyT(x) for x in a])))
    raise Unsupported('norm of ' + op)

def _pminmax(k, a):
    d = padd(a[0], a[1], -1)
    c = _isconst(d)
    if c is not None:
        return a[0] if ((c[0] >= 0) == (k == 'max')) else a[1]
    x = sorted([polyT(a[0]), polyT(a[1])], key=lambda t: t.s())
    return patom(mk('fn', k, *x))

def split_many(args, f):
    tc = set()
    for p in args: tc |= _topconds(p)
    if not tc: return f(args)
    c = min(tc, key=lambda t: t.s())
    pc = {((), frozenset([c]), frozenset()): ONEC}
    a = split_many([_assume(p, c, True) for p in args], f)
    b = split_many([_assume(p, c, False) for p in args], f)
    if a == b: return a
    return padd(pmul(pc, a), pmul(padd(pconst(1), pc, -1), b))

def _bound_conflict(t):
    return ()

def _isconst(p):
    if not p: return (Fr(0), Fr(0))
    if len(p) == 1 and UNIT in p: return p[UNIT]
    return None

def _posatom(x, e):
    if x.op == 'in' and x.a[2] == 'p': return True
    if x.op in ('abs', 'X', 'pi', 'sqrt', 'inf', 'idx'): return True
    if isinstance(e, int) and e % 2 == 0 and x.op in ('in', 'arg', 'idx') and not (x.op == 'in' and x.a[2] == 'c'): return True
    return False

def _pabs(p):
    c = _isconst(p)
    if c is not None:
        if c[1] == 0: return pconst(abs(c[0]))
        if c[0] == 0: return pconst(abs(c[1]))
        return patom(mk('abs', polyT(p)))
    if len(p) == 1:
        (m, c), = p.items()
        if not m[0]:
            out = _pabs({UNIT: c})
            for x, e in m[2]:
                if x.op == 'E': continue
                if _posatom(x, e): out = pmul(out, patom(x, e))
                elif x.op == 'conj': out = pmul(out, simplify((), frozenset(), {mk('abs', x.a[0]): e}))
                elif x.op == 'pw': out = pmul(out, ppow(_pabs(norm(x.a[0])), int(e)))
                else: out = pmul(out, simplify((), frozenset(), {mk('abs', x): e}))
            return out
    com = _common(p)
    if com is not None:
        cm, rest = com
        return pmul(_pabs(cm), _pabs(rest))
    items = sorted(p.items(), key=lambda mc: _sermono(mc[0], ONEC))
    c = items[0][1]
    f = None
    if c[1] == 0: f = abs(c[0]); ci = (1 / c[0], Fr(0))
    elif c[0] == 0: f = abs(c[1]); ci = (Fr(0), -1 / c[1])
    if f is not None:
        p = pscale(p, *ci)
    else: f = Fr(1)
    # strip unit phases common to all terms
    pc = pconj(p)
    a, b = polyT(p), polyT(pc)
    if b.s() < a.s(): a = b
    return pscale(patom(mk('abs', a)), f)

def _common(p):
    """common monomial factor of all terms and the quotient, or None"""
    com = None
    for (sums, conds, atoms), c in p.items():
        b = set(sums)
        d = {x: e for x, e in atoms if not (x.fv() & b)}
        if com is None: com = d
        else:
            n = {}
            for x in com:
                e1, e2 = com[x], d.get(x, 0)
                if e2 == 0: continue
                if e1 == e2: n[x] = e1
                elif e1 > 0 and e2 > 0: n[x] = min(e1, e2)
                elif e1 < 0 and e2 < 0: n[x] = max(e1, e2)
            com = n
        if not com: return None
    cm = {((), frozenset(), frozenset(com.items())): ONEC}
    inv = {((), frozenset(), frozenset((x, -e) for x, e in com.items())): ONEC}
    return cm, pmul(inv, p)

def _pexp(p):
    out = pconst(1)
    for m, c in p.items():
        mono = {m: ONEC}
        if not pisreal(mono):
            return patom(mk('fn', 'exp', polyT(p)))
        if not c[0] and c[1].denominator == 1 and len(m[2]) == 1 and not m[0] and not m[1]:
            (x, e), = m[2]
            if x.op == 'arg' and e == 1:
                # exp(j n arg z) = (z/|z|)^n
                n = int(c[1]); z = norm(x.a[0])
                out = pmul(out, pmul(ppow(z, n), ppow(_pabs(z), -n)))
                continue
        mt = polyT(mono)
        if c[0]:
            out = pmul(out, patom(mk('X', mt), c[0]))
        if c[1]:
            out = pmul(out, patom(mk('E', mt), c[1] if c[1].denominator != 1 else int(c[1])))
    return out

def _parg(p):
    c = _isconst(p)
    if c is not None and c[1] == 0 and c[0] > 0: return {}
    if len(p) == 1:
        (m, c), = p.items()
        if not m[0] and c[1] == 0 and c[0] > 0 and all(x.op == 'E' or _posatom(x, e) for x, e in m[2]):
            out = {}
            for x, e in m[2]:
                if x.op == 'E': out = padd(out, pscale(norm(x.a[0]), Fr(e)))
            return out
    # angle is invariant under positive scaling
    items = sorted(p.items(), key=lambda mc: _sermono(mc[0], ONEC))
    c = items[0][1]
    s = abs(c[0]) if c[0] else abs(c[1])
    return patom(mk('arg', polyT(pscale(p, 1 / s))))

def _psqrt(p):
    c = _isconst(p)
    if c is not None and c[1] == 0 and c[0] >= 0:
        n, d = math.isqrt(c[0].numerator), math.isqrt(c[0].denominator)
        if n * n == c[0].numerator and d * d == c[0].denominator: return pconst(Fr(n, d))
    return patom(mk('sqrt', polyT(p)))

# ---- conditions ---------------------------------------------------------------
_cmemo = {}
def normc(c):
    """Poly (0/1 valued) of a condition"""
    r = c._n
    if r is not None: return r
    r = _normc(c)
    c._n = r
    return r

def _ivp(c): return {((), frozenset([c]), frozenset()): ONEC}

def _normc(c):
    op = c.op
    if op == 'true': return pconst(1)
    if op == 'false': return {}
    if op == 'not': return padd(pconst(1), normc(c.a[0]), -1)
    if op == 'and':
        out = pconst(1)
        for x in c.a: out = pmul(out, normc(x))
        return out
    if op == 'or':
        out = pconst(1)
        for x in c.a: out = pmul(out, padd(pconst(1), normc(x), -1))
        return padd(pconst(1), out, -1)
    if op == 'eqi':
        if c.a[0] is c.a[1]: return pconst(1)
        return simplify((), frozenset([c]), {})
    if op in ('pred',): return _ivp(c)
    if op == 'enum':
        vals = [Fr(x) for x in c.a[3][2:-1].split(',')]
        if c.a[2] == vals[-1]:
            out = pconst(1)
            for v in vals[:-1]: out = padd(out, _ivp(mk('enum', c.a[0], c.a[1], v, c.a[3])), -1)
            return out
        return _ivp(c)
    if op == 'lt0': return split(norm(c.a[0]), _plt0)
    if op == 'eq0': return split(norm(c.a[0]), _peq0)
    if op == 'ex':
        v, b = c.a
        if v.a[0].startswith('@'):
            v2 = fresh(v.dim); b = subst(b, {v: v2}); v = v2
        p = norm(b) if b.op == 'P' else (normc(b) if b.op in COND else norm(b))
        return _pex(v, p)
    raise Unsupported('normc of ' + op)

def _pex(v, p):
    if not p: return {}
    if len(p) == 1:
        (m, c), = p.items()
        if c == ONEC and not m[0] and not m[2]:
            free = frozenset(x for x in m[1] if v not in x.fv())
            rest = m[1] - free
            for x in rest:
                if x.op == 'eqi':
                    for a, b in (x.a, x.a[::-1]):
                        if a is v and v not in b.fv() and b.dim == v.dim:
                            r = _rebuild((), set(rest - frozenset([x])), {}, {v: b})
                            return pmul(r, simplify((), free, {}))
            body = {((), rest, frozenset()): ONEC}
            return pmul(_exatom(v, body), simplify((), free, {}))
    else:
        common = frozenset.intersection(*[m[1] for m in p])
        for x in sorted((x for x in common if x.op == 'eqi'), key=lambda z: z.s()):
            for a, b in (x.a, x.a[::-1]):
                if a is v and v not in b.fv() and b.dim == v.dim and not any(m[0] or m[2] for m in p):
                    out = {}
                    for m, c in p.items(): out = padd(out, pscale(_rebuild((), set(m[1] - frozenset([x])), {}, {v: b}), *c))
                    return out
    return _exatom(v, p)

def _exatom(v, p):
    fvs = polyT(p).fv()
    n = next(nm for nm in ('@%d' % i for i in itertools.count()) if nm not in set(x.a[0] for x in fvs if x is not v))
    nv = iv(n, v.dim)
    if nv is not v: p = psubst(p, {v: nv})
    return _ivp(mk('ex', nv, polyT(p)))

def _strip_pos(p):
    """divide by positive common factors (for sign conditions)"""
    cont = None
    for (sums, conds, atoms), c in p.items():
        d = {x: e for x, e in atoms if (x.op in ('X', 'pi') or x.op == 'in' and x.a[2] == 'p') and not (x.fv() & set(sums))}
        if cont is None: cont = d
        else: cont = {x: e for x, e in cont.items() if d.get(x) == e}
        if not cont: break
    if cont: p = pmul(p, simplify((), frozenset(), {x: -e for x, e in cont.items()}))
    return p

def _infsign(p):
    """sign of a polynomial dominated by +-inf with constant coefficient"""
    for (sums, conds, atoms), c in p.items():
        if any(x.op == 'inf' for x, e in atoms):
            if len(atoms) == 1 or all(x.op == 'inf' or _posatom(x, e) for x, e in atoms): 
                if not any(x.op == 'inf' for (s2, k2, a2), c2 in p.items() if a2 is not atoms for x, e in a2):
                    return 1 if c[0] > 0 else -1
            return None
    return 0

def _strictpos(x, e):
    return (x.op == 'in' and x.a[2] == 'p') or x.op in ('X', 'pi', 'inf')

def _samesign(p):
    """+1/-1 if p is a sum of terms (condition) * (strictly positive) of one sign, with the
    condition (0/1 polynomial) under which it is nonzero; None otherwise"""
    if not any(m[0] for m in p): return None
    sg = None
    for (sums, conds, atoms), c in p.items():
        if c[1] != 0: return None
        if sg is None: sg = c[0] > 0
        elif sg != (c[0] > 0): return None
        if not all(_strictpos(x, e) for x, e in atoms): return None
    none = pconst(1)
    for (sums, conds, atoms), c in p.items():
        b = {((), conds, frozenset()): ONEC}
        for v in sums: b = _pex(v, b)
        none = pmul(none, padd(pconst(1), b, -1))
    return (1 if sg else -1), padd(pconst(1), none, -1)

def _plt0(p):
    c = _isconst(p)
    if c is not None:
        return pconst(1) if c[0] < 0 else {}
    ss = _samesign(p)
    if ss is not None: return {} if ss[0] > 0 else ss[1]
    s = _infsign(p)
    if s == 1: return {}
    if s == -1: return pconst(1)
    if len(p) == 1:
        (m, c), = p.items()
        if not m[0] and all(_posatom(x, e) for x, e in m[2]) and c[1] == 0:
            if all(x.op not in ('abs', 'sqrt') and not (x.op == 'in' and x.a[2] != 'p') and x.op != 'arg' and x.op != 'idx' for x, e in m[2]):
                return pconst(1) if c[0] < 0 else {}
            if c[0] > 0: return {}
    p = _strip_pos(p)
    items = sorted(p.items(), key=lambda mc: _sermono(mc[0], ONEC))
    c = items[0][1]
    if c[1] == 0: p = pscale(p, 1 / abs(c[0]))
    return _ivp(mk('lt0', polyT(p)))

def _peq0(p):
    c = _isconst(p)
    if c is not None:
        return pconst(1) if c == (0, 0) else {}
    ss = _samesign(p)
    if ss is not None: return padd(pconst(1), ss[1], -1)
    if _infsign(p): return {}
    if len(p) == 2:
        ks = list(p.items())
        if all(not m[0] and not m[1] and len(m[2]) == 1 and list(m[2])[0][0].op == 'idx' and list(m[2])[0][1] == 1 for m, c in ks):
            if ks[0][1] == (-ks[1][1][0], -ks[1][1][1]):
                return normc(eqi(list(ks[0][0][2])[0][0].a[0], list(ks[1][0][2])[0][0].a[0]))
    if 2 <= len(p) <= 3 and len([m for m in p if m != UNIT]) == 2:
        # i + a == j + b for shifted indices
        ks = [(m, c) for m, c in p.items() if m != UNIT]
        if all(not m[0] and not m[1] and len(m[2]) == 1 and list(m[2])[0][0].op == 'idx' and list(m[2])[0][1] == 1 for m, c in ks) and ks[0][1] == (-ks[1][1][0], -ks[1][1][1]) and ks[0][1][1] == 0:
            n = p.get(UNIT, ZEROC)[0]; ix = []
            for m, c in ks:
                x = list(m[2])[0][0].a[0]
                while x.op == 'if' and x.a[0] in OFFS: n += c[0] * OFFS[x.a[0]]; x = x.a[1][0]
                ix.append(x)
            if n == 0: return normc(eqi(*ix))
    if len(p) == 2 and UNIT in p:
        (m, c), = [(m, c) for m, c in p.items() if m != UNIT]
        if not m[0] and len(m[2]) == 1:
            (x, e), = m[2]
            if x.op == 'idx' and e == 1 and c[1] == 0:
                n = -p[UNIT][0] / c[0]
                if n.denominator != 1 or n < 0: return {}
                return normc(eqi(x.a[0], ic(n)))
    if len(p) == 1:
        (m, c), = p.items()
        if not m[0]:
            # product is zero iff a non-invertible factor is zero
            xs = [x for x, e in m[2] if not (x.op in ('E', 'X', 'pi') or (x.op == 'in' and x.a[2] == 'p'))]
            if not xs: return {}
            if len(xs) == 1 and xs[0].op == 'idx': return normc(eqi(xs[0].a[0], ic(0)))
            if len(xs) > 1:
                out = pconst(1)
                for x in xs: out = pmul(out, padd(pconst(1), normc(eq0(x)), -1))
                return padd(pconst(1), out, -1)
            if xs[0].op == 'abs': return normc(eq0(xs[0].a[0]))
            if xs[0].op == 'conj': return normc(eq0(xs[0].a[0]))
            p = patom(xs[0])
    else:
        p = _strip_pos(p)
    items = sorted(p.items(), key=lambda mc: _sermono(mc[0], ONEC))
    c = items[0][1]
    d = c[0] * c[0] + c[1] * c[1]
    p = pscale(p, c[0] / d, -c[1] / d)
    return _ivp(mk('eq0', polyT(p)))

# ---- differentiation ----------------------------------------------------------
def diff(t, name, idx):
    """d t / d input `name`[idx] (real input); idx: tuple of index terms not bound in t"""
    memo = {}
    def d(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = dd(t)
        return r
    def dd(t):
        op = t.op
        if op in ('q', 'pi', 'inf', 'br', 'idx'): return ZERO
        if op == 'in':
            if t.a[0] in DEFS:
                ps, body = DEFS[t.a[0]]
                return d(subst(body, dict(zip(ps, t.a[1]))))
            if t.a[0] != name: return ZERO
            return br(mkand(*[eqi(a, b) for a, b in zip(t.a[1], idx)]))
        if op == 'add': return add(*[d(x) for x in t.a])
        if op == 'mul':
            out = []
            for i, x in enumerate(t.a):
                dx = d(x)
                if dx is not ZERO: out.append(mul(*(t.a[:i] + (dx,) + t.a[i + 1:])))
            return add(*out) if out else ZERO
        if op == 'pow':
            dx = d(t.a[0])
            if dx is ZERO: return ZERO
            return mul(t.a[1], power(t.a[0], t.a[1] - 1), dx)
        if op == 'sum':
            v, b = t.a
            return sumover(v, d(b))
        if op == 'conj':
            dx = d(t.a[0])
            return ZERO if dx is ZERO else conj(dx)
        if op == 'exp':
            dx = d(t.a[0])
            return ZERO if dx is ZERO else mul(t, dx)
        if op == 'sqrt':
            dx = d(t.a[0])
            return ZERO if dx is ZERO else mul(HALF, power(t, -1), dx)
        if op == 'abs':
            z = t.a[0]; dz = d(z)
            if dz is ZERO: return ZERO
            return mul(HALF, power(t, -1), add(mul(dz, conj(z)), mul(z, conj(dz))))
        if op == 'arg':
            z = t.a[0]; dz = d(z)
            return ZERO if dz is ZERO else imag(mul(dz, power(z, -1)))
        if op == 'fn' and all(d(x) is ZERO for x in t.a[1:] if isinstance(x, T)): return ZERO
        raise Unsupported('diff of ' + op)
    return d(t)

# named quantities: an atom standing for a real-valued expression (keeps normal forms small)
DEFS = {}; _defkey = {}
def define(body, ivs):
    """atom standing for `body`, a function of the index variables ivs"""
    ps = tuple(iv('$d%d' % k, v.dim) for k, v in enumerate(ivs))
    b = subst(body, dict(zip(ivs, ps)))
    key = (ps, polyT(norm(b)).s())
    nm = _defkey.get(key)
    if nm is None:
        nm = _defkey[key] = 'def#%d' % len(DEFS)
        DEFS[nm] = (ps, b)
    return mk('in', nm, tuple(ivs), 'r')

def unfold(x, scalars=False, indexed=False):
    """x with its definitions replaced by what they abbreviate (one level; only those without index if asked)"""
    memo = {}
    def u(y):
        if y in memo: return memo[y]
        r = y
        if y.op == 'in' and y.a[0] in DEFS and not (scalars and y.a[1]) and not (indexed and not y.a[1]):
            ps, b = DEFS[y.a[0]]; r = subst(b, dict(zip(ps, y.a[1])))
        elif not any(z.op == 'in' and z.a[0] in DEFS for z in allterms(y)): r = y
        elif y.op == 'P': r = add(*[umono(m, c) for m, c in y.a[0]])
        elif y.op in ('sum', 'ex'): r = mk(y.op, y.a[0], u(y.a[1]))
        elif y.op == 'fn': r = mk('fn', *[u(z) if isinstance(z, T) else z for z in y.a])
        elif y.op in ('in', 'pred', 'enum', 'if', 'iv', 'ic', 'idx'): r = y
        else:
            r = mk(y.op, *[u(z) if isinstance(z, T) else z for z in y.a], dim=y.dim)
            if r.op in ('lt0', 'eq0') and r.a[0].op == 'q': r = (lt0 if r.op == 'lt0' else eq0)(r.a[0])
        memo[y] = r
        return r
    def umono(m, c):
        sums, conds, atoms = m
        b = mul(q(*c), *([br(mkand(*[u(k) for k in conds]))] if conds else []), *[power(u(a), e) for a, e in atoms])
        for v in sums: b = sumover(v, b)
        return b
    return u(x)
def allterms(x):
    seen = set(); st = [x]
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y); st.extend(_subterms(y))
    return seen

IREG = {}   # evaluators of derived index functions (ranks, offsets): name -> f(env, *idx)

# ---- numeric evaluation -----------------------------------------------------
class Env(object):
    """valuation: sizes[dim], inputs[name](*idx), ifuns[name](*idx), preds[name](*idx), fns[name](*args)"""
    def __init__(self, sizes, inputs, ifuns=None, preds=None, fns=None):
        self.sizes = sizes; self.inputs = inputs; self.ifuns = ifuns or {}; self.preds = preds or {}
        self.fns = fns or {}
        self.memo = {}

def ev(t, env, b):
    fv = t.fv()
    key = (t.id,) + tuple(sorted((v.id, b[v]) for v in fv if v in b)) if fv else t.id
    m = env.memo
    if key in m: return m[key]
    r = _ev(t, env, b)
    m[key] = r
    return r

def _ev(t, env, b):
    op = t.op
    if op == 'iv':
        return b[t]
    if op == 'ic': return t.a[0]
    if op == 'if':
        f = env.ifuns.get(t.a[0])
        xs = [ev(x, env, b) for x in t.a[1]]
        if f is None: return IREG[t.a[0]](env, *xs)
        return int(f(*xs))
    if op == 'q': return complex(float(t.a[0]), float(t.a[1])) if t.a[1] else float(t.a[0])
    if op == 'pi': return math.pi
    if op == 'inf': return math.inf
    if op == 'nan': return math.nan
    if op == 'in':
        if t.a[0] in DEFS:
            ps, body = DEFS[t.a[0]]
            return ev(body, env, dict(zip(ps, [ev(x, env, b) for x in t.a[1]])))
        return env.inputs[t.a[0]](*[ev(x, env, b) for x in t.a[1]])
    if op == 'add': return sum(ev(x, env, b) for x in t.a)
    if op == 'mul':
        # brackets first so that guarded divisions are not evaluated
        r = 1.0
        for x in t.a:
            if x.op == 'br':
                if not ev(x.a[0], env, b): return 0.0
        for x in t.a:
            if x.op == 'br': continue
            y = ev(x, env, b)
            if y == 0 and not isinstance(y, bool): 
                return 0.0
            r = r * y
        return r
    if op == 'pow':
        x = ev(t.a[0], env, b)
        if x == 0 and t.a[1] < 0: return math.nan
        return x ** t.a[1]
    if op == 'sum':
        v, body = t.a
        r = 0.0
        b2 = dict(b)
        for k in range(env.sizes[v.dim]):
            b2[v] = k
            r = r + ev(body, env, b2)
        return r
    if op == 'br': return 1.0 if ev(t.a[0], env, b) else 0.0
    if op == 'conj': return complex(ev(t.a[0], env, b)).conjugate()
    if op == 'abs': return abs(ev(t.a[0], env, b))
    if op == 'arg': return cmath.phase(ev(t.a[0], env, b))
    if op == 'exp': return cmath.exp(ev(t.a[0], env, b))
    if op == 'E': return cmath.exp(1j * ev(t.a[0], env, b))
    if op == 'X': return cmath.exp(ev(t.a[0], env, b))
    if op == 'pw': return ev(t.a[0], env, b)
    if op == 'sqrt':
        x = ev(t.a[0], env, b)
        return cmath.sqrt(x) if isinstance(x, complex) or x < 0 else math.sqrt(x)
    if op == 'idx': return float(ev(t.a[0], env, b))
    if op == 'fn':
        if t.a[0] == 'zerodiv': return math.nan
        if t.a[0] == 'ite':
            return ev(t.a[2], env, b) if ev(t.a[1], env, b) else ev(t.a[3], env, b)
        args = [ev(x, env, b) if isinstance(x, T) else x for x in t.a[1:]]
        if t.a[0] == 'max': return max(args)
        if t.a[0] == 'min': return min(args)
        if t.a[0] == 'pow': return args[0] ** args[1]
        if t.a[0] == 'exp': return cmath.exp(args[0])
        return env.fns[t.a[0]](*args)
    if op == 'P':
        r = 0.0
        for (sums, conds, atoms), c in t.a[0]:
            r = r + complex(float(c[0]), float(c[1])) * _evmono(sums, conds, atoms, env, b)
        return r
    if op == 'true': return True
    if op == 'false': return False
    if op == 'eqi': return ev(t.a[0], env, b) == ev(t.a[1], env, b)
    if op == 'lt0': 
        x = ev(t.a[0], env, b)
        return (x.real if isinstance(x, complex) else x) < 0
    if op == 'eq0': return ev(t.a[0], env, b) == 0
    if op == 'pred': return bool(env.preds[t.a[0]](*[ev(x, env, b) for x in t.a[1]]))
    if op == 'enum': return env.inputs[t.a[0]](*[ev(x, env, b) for x in t.a[1]]) == t.a[2]
    if op == 'not': return not ev(t.a[0], env, b)
    if op == 'and': return all(ev(x, env, b) for x in t.a)
    if op == 'or': return any(ev(x, env, b) for x in t.a)
    if op == 'ex':
        v, body = t.a
        b2 = dict(b)
        for k in range(env.sizes[v.dim]):
            b2[v] = k
            x = ev(body, env, b2)
            if x: return True
        return False
    raise Unsupported('eval of ' + op)

def _evmono(sums, conds, atoms, env, b):
    if sums:
        r = 0.0
        b2 = dict(b)
        for k in range(env.sizes[sums[0].dim]):
            b2[sums[0]] = k
            r = r + _evmono(sums[1:], conds, atoms, env, b2)
        return r
    for c in conds:
        if not ev(c, env, b): return 0.0
    r = 1.0
    for x, e in atoms:
        y = ev(x, env, b)
        r = r * (y ** (int(e) if Fr(e).denominator == 1 else float(e)))
    return r

# ---- denominators ----------------------------------------------------------
def psimp_denoms(p):
    """multiply out inverse-polynomial atoms (sum-free ones, or inside equal sums); None if there are none.
    The result is zero iff p is (the inverted polynomials are nonzero wherever the terms are defined)."""
    den = {}
    for (sums, conds, atoms), c in p.items():
        for x, e in atoms:
            if x.op == 'pw' and not (x.fv() & set(sums)):
                den[x] = min(den.get(x, 0), int(e))
    if not den: return None
    if len(den) > 6: return None
    x = sorted(den, key=lambda k: k.s())[0]
    n = -den[x]
    base = norm(x.a[0])
    out = {}
    for (sums, conds, atoms), c in p.items():
        d = dict(atoms)
        e = int(d.pop(x, 0))
        r = simplify((), conds, d)
        k = e + n
        for _ in range(k): r = pmul(r, base)
        out = padd(out, pscale(psum(sums, r), *c))
    q = psimp_denoms(out)
    return out if q is None else q
