"""z3 back end: feasibility and implication of path conditions; case analysis."""
import time
import z3
from . import terms as t
from .terms import T, Fr

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'poly_checks': 0, 'poly_time': 0.0}

_real = {}
def rv(x):
    k = x.s()
    if k not in _real: _real[k] = z3.Real('r!%d' % len(_real))
    return _real[k]
_bool = {}
def bv(k):
    if k not in _bool: _bool[k] = z3.Bool('b!%d' % len(_bool))
    return _bool[k]

def zpoly(p):
    """z3 real expression of a Poly with real coefficients (sums as opaque atoms)"""
    out = []
    for (sums, conds, atoms), c in p.items():
        if c[1] != 0: return None
        k = z3.RealVal(str(c[0]))
        if sums:
            # factors that do not depend on the summation index stand before the sum
            vs = set(sums); inner = frozenset((x, n) for x, n in atoms if x.fv() & vs); outer = [(x, n) for x, n in atoms if (x, n) not in inner]
            if INVERSES and outer and all(n == int(n) and 0 < n <= 4 for x, n in outer) and (inner or conds):
                e = k * rv(t.polyT({(sums, conds, inner): t.ONEC}))
                for x, n in outer:
                    for _ in range(int(n)): e = e * rv(x)
                out.append(e); continue
            out.append(k * rv(t.polyT({(sums, conds, atoms): t.ONEC})))
            continue
        e = k
        for x, n in atoms:
            n = Fr(n)
            if n.denominator != 1: e = e * rv(t.polyT(t.patom(x, n))); continue
            n = int(n)
            if abs(n) > 4: e = e * rv(t.polyT(t.patom(x, n))); continue
            for _ in range(abs(n)): e = e * rv(x) if n > 0 else e * rv(t.mk('fn', 'inv', x))
        for q in conds:
            zc = zcond_atom(q)
            e = z3.If(zc, e, z3.RealVal(0))
        out.append(e)
    return z3.Sum(out) if out else z3.RealVal(0)

def zcond_atom(c):
    if c.op == 'lt0':
        z = zpoly(t.norm(c.a[0]))
        return bv(c.s()) if z is None else z < 0
    if c.op == 'eq0':
        z = zpoly(t.norm(c.a[0]))
        return bv(c.s()) if z is None else z == 0
    if c.op == 'enum':
        return rv(t.mk('in', c.a[0], c.a[1], c.a[3])) == z3.RealVal(str(c.a[2]))
    return bv(c.s())

_zc = {}
def zc(c):
    """z3 formula of a condition via its normal form (0/1 polynomial)"""
    p = t.normc(c)
    k = id(p)
    r = _zc.get(k)
    if r is None or r[0] is not p:
        r = _zc[k] = (p, zc0(p))
        if len(_zc) > 20000: _zc.clear()
    return r[1]
def zc0(p):
    if not p: return z3.BoolVal(False)
    if p == t.pconst(1): return z3.BoolVal(True)
    return zpoly01(p)

def zpoly01(p):
    out = []
    for (sums, conds, atoms), c in p.items():
        e = z3.And(*[zcond_atom(k) for k in conds]) if conds else z3.BoolVal(True)
        out.append((c[0], e))
    # cheap forms
    if len(out) == 1 and out[0][0] == 1: return out[0][1]
    if len(out) == 2:
        ks = sorted(out, key=lambda x: -len(x[1].children()) if False else x[0])
        if ks[0][0] == -1 and ks[1][0] == 1 and t.UNIT in p and p[t.UNIT][0] == 1:
            other = [e for k, e in out if k == -1][0]
            return z3.Not(other)
    return z3.Sum([z3.If(e, z3.RealVal(str(k)), z3.RealVal(0)) for k, e in out]) == 1

INVERSES = []      # a contract may ask for x * (1/x) = 1
def side_facts(conds):
    """domain facts on atoms occurring in the conditions"""
    fs = []; exs = []; invs = set()
    seen = set()
    def walk(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'in':
            if x.a[2] == 'p': fs.append(rv(x) > 0)
            if x.a[2].startswith('e('):
                fs.append(z3.Or(*[rv(x) == z3.RealVal(v) for v in x.a[2][2:-1].split(',')]))
        if x.op == 'enum':
            a = t.mk('in', x.a[0], x.a[1], x.a[3])
            walk(a)
        if INVERSES and x.op in ('lt0', 'eq0'): invs.update(q for m in t.norm(x.a[0]) for q, e in m[2] if e == -1)
        if x.op in ('abs', 'sqrt'): fs.append(rv(x) >= 0)
        if x.op == 'pi': fs.append(z3.And(rv(x) > 3, rv(x) < 4))
        if x.op == 'inf': fs.append(rv(x) > 10 ** 12)
        for y in t._subterms(x): walk(y)
    for c in conds:
        for (s, ks, at), k in t.normc(c).items():
            for q in ks:
                walk(q)
                if q.op == 'ex' and q not in exs: exs.append(q)
            for q, e in at:
                walk(q)
                if INVERSES and e == -1: invs.add(q)
    for q in invs: fs.append(z3.Or(rv(q) == 0, rv(q) * rv(t.mk('fn', 'inv', q)) == 1))
    # a witness: any index of the dimension at which the body holds
    n = 0
    fv = set()
    for c in conds: fv |= c.fv()
    for x in exs:
        v, b = x.a
        for f in sorted(fv, key=lambda f: f.s()):
            if f.dim != v.dim or n > 24: continue
            g = t.ascond(t.subst(b, {v: f}))
            if t.normc(g) == t.pconst(1): fs.append(bv(x.s())); n += 1
            elif t.normc(g):
                fs.append(z3.Implies(zc(g), bv(x.s()))); n += 1
                for (s_, ks, at), k in t.normc(g).items():
                    for q in ks: walk(q)
    if len(exs) <= 16:
        for x in exs:
            for y in exs:
                if x is not y and x.a[0].dim == y.a[0].dim and _stronger(x, y): fs.append(z3.Implies(bv(x.s()), bv(y.s())))
    return fs

def _proportional(a, b):
    if a.keys() != b.keys() or not a: return False
    k = None
    for m, c in a.items():
        d = b[m]
        if c[1] != 0 or d[1] != 0: return a == b
        q = c[0] / d[0]
        if k is None: k = q
        elif k != q: return False
    return True

def _linear_facts(p, path):
    """p reduced by the equations on the path (None if nothing applies)"""
    q = p
    for k in path:
        for f in (k.a if k.op == 'and' else (k,)):
            if f.op != 'eq0': continue
            e = t.norm(f.a[0])
            if not e: continue
            q2 = assume_true(q, f)
            m0 = max(e, key=lambda m: (len(m[0]), len(m[1]), t._sermono(m, t.ONEC)))
            if m0 in q2 and m0[0]:
                c, d = e[m0], q2[m0]
                if c[1] == 0 and d[1] == 0: q2 = t.padd(q2, t.pscale(e, -d[0] / c[0]))
            q = q2
    # what is left: reduced by the row echelon form of the equations (linear in their monomials)
    key = lambda m: (len(m[0]), len(m[1]), t._sermono(m, t.ONEC))
    ech = []
    for k in path:
        for f in (k.a if k.op == 'and' else (k,)):
            if f.op != 'eq0': continue
            e = t.norm(f.a[0])
            if len(e) > 20 or any(c[1] != 0 for c in e.values()): continue
            for m0, r in ech:
                if m0 in e: e = t.padd(e, t.pscale(r, -e[m0][0] / r[m0][0]))
            if e: ech.append((max(e, key=key), e))
    for m0, r in ech:
        if m0 in q and q[m0][1] == 0: q = t.padd(q, t.pscale(r, -q[m0][0] / r[m0][0]))
    return q if q != p else None

_strong = {}
def _stronger(x, y):
    """every witness of x is one of y (syntactically)"""
    k = (x.id, y.id)
    if k not in _strong:
        (v, b), (w, c) = x.a, y.a
        bp = t.normc(b) if b.op in t.COND else t.norm(b); cp = t.normc(c) if c.op in t.COND else t.norm(c)
        if len(bp) > 12 or len(cp) > 12: _strong[k] = False
        else: _strong[k] = t.pmul(bp, t.psubst(cp, {w: v})) == bp
    return _strong[k]

_sk = {}
def _small(p):
    n = 0
    for (s, ks, at) in t.normc(p):
        for q in ks:
            n += 1
            if q.op == 'ex': n += len(t.normc(q.a[1]) if q.a[1].op in t.COND else t.norm(q.a[1]))
    return n <= 8
def skolem_facts(path, c):
    """a named witness of every existential condition, and what it means for the others over the same dimension"""
    exs = []; cx = set()
    for k, d in enumerate(list(path) + [c]):
        for (s, ks, at) in t.normc(d):
            for q in ks:
                if q.op == 'ex':
                    if q not in exs: exs.append(q)
                    if k == len(path): cx.add(q.a[0].dim)
    exs = [x for x in exs if x.a[0].dim in cx]
    if len(exs) < 2 or len(exs) > 16: return []
    fs = []; conds = []
    for x in exs:
        v, b = x.a
        w = _sk.get(x.id)
        if w is None: w = _sk[x.id] = (t.iv('sk~%d' % len(_sk), v.dim), x)
        w = w[0]
        for y in exs:
            if y.a[0].dim != v.dim: continue
            g = t.ascond(t.subst(y.a[1], {y.a[0]: w})); conds.append(g)
            fs.append(z3.Implies(bv(x.s()), zc(g)) if y is x else z3.Implies(zc(g), bv(y.s())))
    return fs + side_facts(conds)

_imp = {}
def implied(path, c):
    """True/False if the path conditions decide c, None otherwise"""
    key = (tuple(p.id for p in path), c.id)
    if key in _imp: return _imp[key]
    t0 = time.time()
    try:
        s = z3.Solver(); s.set('timeout', 2000)
        for p in path: s.add(zc(p))
        for f in side_facts(list(path) + [c]): s.add(f)
        z = zc(c)
        s.push(); s.add(z3.Not(z)); r1 = s.check(); s.pop()
        if r1 == z3.unsat: r = True
        else:
            s.push(); s.add(z); r2 = s.check(); s.pop()
            r = False if r2 == z3.unsat else None
        if r is None:
            small = [p for p in path if _small(p)]      # dropping hypotheses is sound
            fs = skolem_facts(small, c)
            if fs:
                s = z3.Solver(); s.set('timeout', 2000)
                for p in small: s.add(zc(p))
                for f in fs: s.add(f)
                for f in side_facts(small + [c]): s.add(f)
                s.push(); s.add(z3.Not(z)); r1 = s.check(); s.pop()
                if r1 == z3.unsat: r = True
                else:
                    s.add(z); r2 = s.check()
                    r = False if r2 == z3.unsat else None
    finally:
        STATS['z3_queries'] += 2; STATS['z3_time'] += time.time() - t0
    _imp[key] = r
    return r

def feasible(path):
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', 3000)
    for p in path: s.add(zc(p))
    for f in side_facts(list(path)): s.add(f)
    r = s.check()
    STATS['z3_queries'] += 1; STATS['z3_time'] += time.time() - t0
    return r != z3.unsat

def valid(path, c):
    """True if path implies c (decided by z3)"""
    return implied(list(path), c) is True

def prove(hyps, goal, ivs=(), timeout=6000):
    """goal from the hypotheses: witnesses for the existential ones, instances of the universal ones at the indices
    given and at the witnesses; products and reciprocals as real arithmetic"""
    hyps = [d for h in hyps for d in (h.a if h.op == 'and' else (h,))]
    for n, d in enumerate(hyps):
        if d.op == 'or' and any(x.op == 'ex' for x in d.a):
            return all(prove(hyps[:n] + [x] + hyps[n + 1:], goal, ivs, timeout) for x in d.a)
    t0 = time.time(); old = INVERSES[:]; INVERSES[:] = [1]
    try:
        idx = set(i for i in ivs if isinstance(i, t.T) and i.op == 'iv'); pos = []; univ = []
        def sk(c):
            if c.op == 'ex':
                w = t.fresh(c.a[0].dim, 'w'); idx.add(w); return t.ascond(t.subst(c.a[1], {c.a[0]: w}))
            if c.op in ('or', 'and'): return (t.mkor if c.op == 'or' else t.mkand)(*[sk(x) for x in c.a])
            return c
        for h in hyps:
            for d in (h.a if h.op == 'and' else (h,)):
                if d.op == 'not' and (d.a[0].op == 'ex' or d.a[0].op == 'or' and any(x.op == 'ex' for x in d.a[0].a)):
                    for x in (d.a[0].a if d.a[0].op == 'or' else (d.a[0],)): (univ if x.op == 'ex' else pos).append(x if x.op == 'ex' else t.mknot(x))
                else: pos.append(sk(d))
        for x in univ:
            for i in sorted(idx, key=lambda y: y.s()):
                if i.dim == x.a[0].dim: pos.append(t.mknot(t.ascond(t.subst(x.a[1], {x.a[0]: i}))))
        s = z3.Solver(); s.set('timeout', timeout)
        for c in pos: s.add(zc(c))
        for f in side_facts(pos + [goal]): s.add(f)
        s.add(z3.Not(zc(goal)))
        return s.check() == z3.unsat
    finally:
        INVERSES[:] = old; STATS['z3_queries'] += 1; STATS['z3_time'] += time.time() - t0

# ---- zero test -----------------------------------------------------------------
def is_zero(term, path=(), axioms=(), ivs=()):
    """True if term == 0 is proved under the path conditions"""
    t0 = time.time()
    STATS['poly_checks'] += 1
    try:
        p = t.norm(term)
        if not p: return True
        path = instances(p, list(path), ivs)
        if t.FALSE in path: return True
        return _zero(p, path, 0, list(axioms)) or (len(path) > 0 and not feasible(path))
    finally:
        STATS['poly_time'] += time.time() - t0

def instances(p, path, ivs=()):
    """facts of the form "no i satisfies c(i)" at the free indices of the goal"""
    fv = set()
    for (sums, conds, atoms), c in p.items():
        f = set()
        for k in conds: f |= k.fv()
        for x, e in atoms: f |= x.fv()
        fv |= f - set(sums)
    for i in ivs:
        while isinstance(i, tuple): i = i[1]
        if isinstance(i, t.T) and i.op == 'iv': fv.add(i)
    # index functions of those variables are indices as well
    ifs = set(); bound = set(); seen = set()
    def walk(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'if' and x.fv() and not x.a[0].startswith('off#'): ifs.add(x)
        for y in t._subterms(x): walk(y)
    for (sums, conds, atoms), c in p.items():
        bound |= set(sums)
        for k in conds: walk(k)
        for x, e in atoms: walk(x)
    fv |= set(x for x in ifs if x.fv() <= fv and not (x.fv() & bound))
    if not fv: return path
    out = []
    from . import arrays as A
    for f in sorted((x for x in fv if x.op == 'if' and x.a[0] in A._sortmask), key=lambda x: x.s()):
        # a sorting permutation maps its axis onto itself
        v, m = A._sortmask[f.a[0]]
        if m is t.TRUE: continue
        m0, m1 = t.subst(m, {v: f.a[1][0]}), t.subst(m, {v: f})
        out.append(m1 if all(c in path for c in (m0.a if m0.op == 'and' else (m0,))) else t.mkor(t.mknot(m0), m1))
    for c in path:
        for d in (c.a if c.op == 'and' else (c,)):
            if d.op != 'not': continue
            for e in (d.a[0].a if d.a[0].op == 'or' else (d.a[0],)):
                if e.op != 'ex': continue
                v, b = e.a
                for f in sorted(fv, key=lambda x: x.s()):
                    if f.dim != v.dim or len(out) > 40: continue
                    g = t.mknot(t.ascond(t.subst(b, {v: f})))
                    if g is not t.TRUE and g not in path and g not in out: out.append(g)
    return path + out

def _free_conds(p):
    s = set()
    for (sums, conds, atoms), c in p.items():
        b = set(sums)
        for k in conds:
            if not (k.fv() & b): s.add(k)
        # conditions hidden inside atoms are not split
    return s

def _zero(p, path, depth, axioms, seen=frozenset()):
    if not p: return True
    # guards of an inversion are decided before the inversion is multiplied out
    den = [t.norm(x.a[0]) for x in set(x for m in p for x, e in m[2] if x.op == 'pw' and e < 0)]
    if den:
        for k in sorted(_free_conds(p), key=lambda x: x.s()):
            if k.op != 'eq0' or not any(_proportional(t.norm(k.a[0]), d) for d in den): continue
            r = implied(path, k) if path else None
            if r is not None: return _zero(t._assume(p, k, False) if not r else t._assume(p, k, True), path, depth, axioms, seen)
            for val in (True, False):
                np_ = path + [k if val else t.mknot(k)]
                if feasible(np_) and not _zero(t._assume(p, k, val), np_, depth + 1, axioms): return False
            return True
    p2 = t.psimp_denoms(p)
    if p2 is not None:
        if not p2: return True
        p = p2
    # path conditions as facts
    fc = sorted(_free_conds(p), key=lambda x: x.s())
    for k in fc:
        r = implied(path, k) if path else None
        if r is not None:
            return _zero(t._assume(p, k, r) if not r else assume_true(p, k), path, depth, axioms, seen)
    nf = _nth_facts(p, path)
    if nf is not None and nf != p:
        k0 = frozenset(p.items())
        if frozenset(nf.items()) not in seen and k0 not in seen: return _zero(nf, path, depth, axioms, seen | {k0})
    ex = _apply_empty(p, path)
    if ex is not None and ex != p: return _zero(ex, path, depth, axioms, seen)
    lq = _linear_facts(p, path)
    if lq is not None:
        k1 = frozenset(lq.items())
        if k1 not in seen: return _zero(lq, path, depth, axioms, seen | {k1, frozenset(p.items())})
    if fc and depth < 14:
        k = fc[0]
        for val in (True, False):
            np_ = path + [k if val else t.mknot(k)]
            if val and k.op == 'eqi':      # equal indices: what the path says about one holds for the other
                a, b = k.a
                if t._ixord(a, ()) > t._ixord(b, ()): a, b = b, a
                np_ += [x for x in (t.subst(c, {b: a}) for c in path if b in c.fv()) if x not in np_] if b.op == 'iv' else []
            if not feasible(np_): continue
            q = assume_deep(p, k, val)
            if not _zero(q, np_, depth + 1, axioms): return False
        return True
    pw = _piecewise(p)
    if pw is not None and depth < 14:
        x, c, yes, no = pw
        for k, val in ((c, yes), (t.mknot(c), no)):
            np_ = path + [k]
            if feasible(np_) and not _zero(replace_atom(p, x, t.norm(val)), np_, depth + 1, axioms): return False
        return True
    der = _derived(path)
    if der: return _zero(p, path + der, depth, axioms, seen)
    for ax in axioms:
        q = ax(p)
        if q is not None and q != p:
            return _zero(q, path, depth, axioms, seen)
    # sums: a family of equal-shaped sums vanishes if the summand does
    groups = {}
    for m, c in p.items():
        groups.setdefault(tuple(m[0]), {})[m] = c
    if () in groups or not groups: return False
    if depth > 20: return False
    for sums, g in groups.items():
        mp = {v: t.fresh(v.dim) for v in sums}
        q = {}
        for (s, conds, atoms), c in g.items():
            body = {((), conds, atoms): t.ONEC}
            q = t.padd(q, t.pscale(t.psubst(body, mp), *c))
        if not _zero(q, path, depth + 6, axioms): return False
    return True

def _piecewise(p):
    """a magnitude of a real number or a maximum left in p: (atom, condition, value if it holds, value if not)"""
    for m in p:
        for x, e in m[2]:
            if x.fv() & set(m[0]): continue
            if x.op == 'abs':
                a = x.a[0]
                if t.norm(t.conj(a)) == t.norm(a): return x, t.lt0(a), t.mul(-1, a), a
            if x.op == 'fn' and x.a[0] in ('max', 'min') and len(x.a) == 3:
                a, b = x.a[1:]
                return (x, t.lt0(a - b), b, a) if x.a[0] == 'max' else (x, t.lt0(a - b), a, b)
    return None

_der = {}
def _derived(path):
    """equations inside the disjunctions on the path that the path implies"""
    key = tuple(c.id for c in path)
    if key in _der: return _der[key]
    cand = []; seen = set()
    def walk(c, top):
        if c in seen: return
        seen.add(c)
        if c.op == 'eq0' and not top and c not in cand: cand.append(c)
        if c.op in ('and', 'or'):
            for x in c.a: walk(x, top and c.op == 'and')
        elif c.op == 'not': walk(c.a[0], False)
    for c in path: walk(c, True)
    for c in path:
        for x in (c.a if c.op == 'and' else (c,)):
            if x in cand: cand.remove(x)
    out = [c for c in cand[:8] if implied(list(path), c) is True]
    _der[key] = out
    return out

def _nth_terms(p):
    out = set(); seen = set()
    def walk(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'if' and x.a[0].startswith('nth#'): out.add(x)
        for y in t._subterms(x): walk(y)
    for (sums, conds, atoms), c in p.items():
        for k in conds: walk(k)
        for x, e in atoms: walk(x)
    return out

def _nth_facts(p, path):
    """the first element of a nonempty set belongs to it; a set with at most one element has no other"""
    from . import arrays as A
    xs = _nth_terms(p)
    if not xs: return None
    for x in sorted(xs, key=lambda y: y.s()):
        mb, ph, n, dim = A._nthax[x.a[0]]
        if n not in (0, -1): continue
        sub = dict(zip(ph, x.a[1]))
        body = t.subst(mb, sub) if sub else mb
        v = t.fresh(dim)
        ne = t.mkex(v, t.subst(body, {t.iv('$', dim): v}))
        if not path or not valid(path, ne): continue
        m = t.normc(t.subst(body, {t.iv('$', dim): x}))
        fv = x.fv()
        mine = {}; rest = {}
        for mono, c in p.items():
            (mine if not (fv & set(mono[0])) and x in _nth_terms({mono: c}) else rest)[mono] = c
        if mine:
            q = t.padd(rest, t.pmul(mine, m))
            if q != p: return q
            if rest and all(not (fv & set(mono[0])) for mono in rest):
                q = t.pmul(p, m)
                if len(q) < len(p): return q
        # at most one element?
        w = t.fresh(dim)
        cnt = t.sumover(w, t.br(t.subst(body, {t.iv('$', dim): w})))
        one = t.mknot(t.lt0(1 - cnt))
        if valid(path, one):
            q = {}
            for mono, c in p.items():
                r = {mono: c}
                for y in sorted(set(mono[0]) | set(z for k in mono[1] for z in k.fv()), key=lambda y: y.s()):
                    if y.dim != dim: continue
                    cm = t.normc(t.subst(body, {t.iv('$', dim): y}))
                    if len(cm) == 1:
                        (mm, cc), = cm.items()
                        if cc == t.ONEC and not mm[0] and not mm[2] and mm[1] <= mono[1]:
                            # rebuild with y = x inside the sums
                            inner = {((), mono[1], mono[2]): c}
                            inner = t.pmul(inner, t.normc(t.eqi(y, x)))
                            r = t.psum(mono[0], inner)
                            if r != {mono: c}: break
                q = t.padd(q, r)
            if q != p: return q
    return None

def assume_deep(p, k, val):
    """use a decided condition, also inside quantified conditions"""
    q = assume_true(p, k) if val else t._assume(p, k, False)
    if k.op in ('enum', 'pred', 'lt0', 'eqi', 'eq0') and any(c.op == 'ex' for m in q for c in m[1]):
        mp = {k: t.TRUE if val else t.FALSE}
        if val and k.op == 'enum':
            for x in set(y for m in q for c in m[1] if c.op == 'ex' for y in _enums(c)):
                if x.a[:2] == k.a[:2] and x is not k: mp[x] = t.FALSE
        q = t.psubst(q, mp)
    return q

def _enums(c):
    out = set(); seen = set()
    def walk(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'enum': out.add(x)
        for y in t._subterms(x): walk(y)
    walk(c)
    return out

def assume_true(p, k):
    """use a true condition as a rewriting fact"""
    q = t._assume(p, k, True)
    if k.op == 'eq0':
        e = t.norm(k.a[0])
        # linear in some atom: solve for it
        for (sums, conds, atoms), c in sorted(e.items(), key=lambda mc: t._sermono(mc[0], mc[1])):
            if sums or conds or len(atoms) != 1: continue
            (x, n), = atoms
            if n != 1: continue
            rest = t.padd(e, {(sums, conds, atoms): c}, -1)
            if any(x in set(a for a, _ in m[2]) or any(t._contains(a, x) for a, _ in m[2]) for m in rest): continue
            d = c[0] * c[0] + c[1] * c[1]
            val = t.pscale(rest, -c[0] / d, c[1] / d)
            return replace_atom(q, x, val)
    if k.op == 'eqi':
        a, b = k.a
        if t._ixord(a, ()) > t._ixord(b, ()): a, b = b, a
        return t.psubst(q, {b: a}) if a not in b.fv() or True else q
    return q

def replace_atom(p, x, val):
    out = {}
    for (sums, conds, atoms), c in p.items():
        d = dict(atoms)
        e = d.pop(x, 0)
        r = t.simplify((), conds, d)
        if e:
            try: r = t.pmul(r, t.ppow(val, e))
            except t.Unsupported: r = t.pmul(r, t.patom(x, e))
        out = t.padd(out, t.pscale(t.psum(sums, r), *c))
    return out

def _apply_empty(p, path):
    """sums over dimensions known empty on this path vanish"""
    empties = []
    for c in path:
        if c.op == 'not' and c.a[0].op == 'ex': empties.append(c.a[0])
        elif c.op == 'not' and c.a[0].op == 'or':
            empties.extend(x for x in c.a[0].a if x.op == 'ex')
        elif c.op == 'and':
            for x in c.a:
                if x.op == 'not' and x.a[0].op == 'ex': empties.append(x.a[0])
    if not empties: return None
    full = {}
    for e in empties:
        v, b = e.a
        bp = t.norm(b) if b.op == 'P' else t.normc(b) if b.op in t.COND else t.norm(b)
        full.setdefault(v.dim, []).append((v, bp))
    out = {}
    memo = {}
    for m, c in p.items():
        dead = False
        for v in set(m[0]) | set(z for k in m[1] for z in k.fv()):
            for n, (w, bp) in enumerate(full.get(v.dim, ())):
                q = memo.get((n, v))
                if q is None: q = memo[n, v] = t.psubst(bp, {w: v})
                if q == t.pconst(1): dead = True
                elif len(q) == 1:
                    (mm, cc), = q.items()
                    if cc == t.ONEC and not mm[0] and not mm[2] and mm[1] <= m[1]: dead = True
        if not dead: out[m] = c
    return out
