from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from pv import solve
from pv.arrays import dimaxis, fixaxis, cataxis
from .net import *
from . import gen as G
from .gen import need, needclose
from fractions import Fraction
import numpy as np
from pypower.polycost import polycost
from pypower.totcost import totcost
from pypower.modcost import modcost, polyshift
from pypower.pqcost import pqcost
from pypower.idx_cost import *

NC = 10          # polynomial rows: up to NC coefficients; piecewise linear rows: up to NP breakpoints
NP = 6
def cost_table(S, ax, model, ncols, name='gencost'):
    cols = {MODEL: ('enum', model) if len(model) > 1 else ('const', model[0])}
    nv = sorted(set(([*range(1, NC + 1)] if 2 in model else []) + ([*range(2, NP + 1)] if 1 in model else [])))
    cols[NCOST] = ('enum', tuple(nv))
    T = S.table(name, ax, ncols, cols)
    if len(model) > 1:   # piecewise linear rows have 2..NP breakpoints
        for n in nv:
            if n < 2 or n > NP: S.pre.append(t.mknot(A.any_over(ax, lambda g: t.mkand(t.cmp_eq(T.num(g, MODEL), t.q(1)), t.cmp_eq(T.num(g, NCOST), t.q(n))))))
    return T
def poly(gc, g, x, der=0, n=None):
    """der-th derivative of the polynomial of row g at x"""
    out = t.ZERO
    for n in range(1, NC + 1):
        s = t.ZERO
        for j in range(n):
            e = n - 1 - j
            if e < der: continue
            k = 1
            for m in range(der): k *= e - m
            s = s + k * gc.num(g, COST + j) * t.power(x, e - der)
        out = out + t.br(t.cmp_eq(gc.num(g, NCOST), t.q(n))) * s
    return out
def pwl(gc, g, x, only=None):
    """the segment containing x, end segments extended (only: for rows known to have that many points)"""
    P_ = lambda k: gc.num(g, COST + 2 * k); C_ = lambda k: gc.num(g, COST + 2 * k + 1)
    def seg(k): return C_(k) + (C_(k + 1) - C_(k)) / (P_(k + 1) - P_(k)) * (x - P_(k))
    out = t.ZERO
    for n in range(2, NP + 1):
        if only not in (None, n): continue
        s = seg(n - 2)
        for k in reversed(range(n - 2)): s = t.ite(t.lt0(x - P_(k + 1)), seg(k), s)
        out = s if only else out + t.br(t.cmp_eq(gc.num(g, NCOST), t.q(n))) * s
    return out
WID = 4 + max(NC, 2 * NP)
def pc_args(der):
    def f(S):
        ng = S.dim('ng', 1, 5); S.pre.append(A.any_over(ng, lambda i: t.TRUE))
        return [cost_table(S, ng, (2,), 4 + NC), S.array('Pg', [ng]), der]
    return f
def spec_poly(gc, Pg, der=0): return SArray([gc.axes[0]], lambda g: poly(gc, g, Pg.num(g), der), 'f')
cPoly = register(FunContract(polycost, spec_poly, {'derivative %d' % d: pc_args(d) for d in (0, 1, 2, 3)}))
CONTRACTS = [cPoly]
def tc_args(model):
    def f(S):
        ng = S.dim('ng', 1, 5)
        return [cost_table(S, ng, model, WID), S.array('Pg', [ng])]
    return f
def spec_totcost(gc, Pg):
    return SArray([gc.axes[0]], lambda g: t.ite(t.cmp_eq(gc.num(g, MODEL), t.q(1)), pwl(gc, g, Pg.num(g)), poly(gc, g, Pg.num(g))), 'f')
def tc2(S):
    a = tc_args((1, 2))(S); return a
CONTRACTS += [FunContract(totcost, spec_totcost, {'piecewise linear': tc_args((1,)), 'polynomial': tc_args((2,)), 'mixed': tc_args((1, 2))}, callees=[cPoly])]
def mc_args(model, mode):
    def f(S):
        ng = S.dim('ng', 1, 4)
        return [cost_table(S, ng, model, WID), S.scalar('alpha', 'p' if mode == 'SCALE_X' else 'r'), mode]
    return f
MODES = ('SCALE_F', 'SCALE_X', 'SHIFT_F', 'SHIFT_X')
def mc_post(out, args, snap, ghost, it):
    gc, al, mode = snap
    ng = gc.axes[0]
    if not isinstance(out, SArray) or out.ndim != 2: return [('returns a table', lambda: False)]
    o = snapshot(out)
    cl = [('same shape', lambda: A.match_axes(o.axes[0], ng) is None and A.match_axes(o.axes[1], gc.axes[1]) is None),
          ('a new table', lambda: out is not args[0] and out.base is None or not shares(out, args[0]))]
    for c in (MODEL, STARTUP, SHUTDOWN, NCOST): cl.append(('column %d unchanged' % c, Claim([ng], lambda g, c=c: o.num(g, c) - gc.num(g, c))))
    x = t.inp('x', ())
    xo = {'SCALE_F': x, 'SHIFT_F': x, 'SCALE_X': x * al, 'SHIFT_X': x + al}[mode]
    def want(F): return {'SCALE_F': F * al, 'SHIFT_F': F + al, 'SCALE_X': F, 'SHIFT_X': F}[mode]
    ispw = lambda g: t.br(t.cmp_eq(gc.num(g, MODEL), t.q(1)))
    # row by row kind: the model and size read by the claim are replaced by the values of that kind
    def is_(g, c, v):
        x = gc.num(g, c)
        if x.op != 'in': return {}
        vals = [Fraction(y) for y in x.a[2][2:-1].split(',')]
        return {x: t.q(v)} | {t.mk('enum', x.a[0], x.a[1], y, x.a[2]): t.TRUE if y == v else t.FALSE for y in vals}
    def rows(mod, n, F): return Claim([ng], lambda g: t.subst(F(g), is_(g, MODEL, mod) | is_(g, NCOST, n)), lambda g: [t.cmp_eq(gc.num(g, MODEL), t.q(mod)), t.cmp_eq(gc.num(g, NCOST), t.q(n))])
    kinds = (1, 2) if gc.num(t.iv('g?', ng), MODEL).op == 'in' else (int(gc.num(t.iv('g?', ng), MODEL).a[0]),)
    for n in range(1, NC + 1) if 2 in kinds else (): cl.append(('polynomial rows of %d coefficients' % n, rows(2, n, lambda g, n=n: poly(o, g, xo) - want(poly(gc, g, x)))))
    for n in range(2, NP + 1) if 1 in kinds else (): cl.append(('piecewise linear rows of %d points' % n, rows(1, n, lambda g, n=n: pwl(o, g, xo, n) - want(pwl(gc, g, x, n)))))
    return cl
def shares(a, b):
    while a is not None:
        if a is b: return True
        a = a.base
    return False
CONTRACTS += [FunContract(modcost, None, {'%s %s' % (m, k): mc_args(mo, m) for m in MODES for k, mo in (('polynomial', (2,)), ('piecewise linear', (1,)), ('mixed', (1, 2)))}, post=mc_post)]
def ps_args(n):
    return lambda S: [S.array('c', [fixaxis(n)]), S.scalar('a')]
def ps_post(out, args, snap, ghost, it):
    c, a = snap; n = c.axes[0].n
    o = snapshot(out); x = t.inp('x', ())
    if not isinstance(o, SArray) or o.ndim != 1 or not o.axes[0].isfix(n): return [('same number of coefficients', lambda: False)]
    p = lambda q, y: sum((q.num(j) * t.power(y, n - 1 - j) for j in range(n)), t.ZERO)
    return [('shifted polynomial', Claim([], lambda: p(o, x + a) - p(c, x)))]
CONTRACTS += [FunContract(polyshift, None, {'%d coefficients' % n: ps_args(n) for n in range(1, NC + 1)}, post=ps_post)]
def pq_args(q, on):
    def f(S):
        ng = S.dim('ng', 1, 4); S.pre.append(A.any_over(ng, lambda i: t.TRUE))
        gc = S.array('gencost', [cataxis([ng, ng]) if q else ng, fixaxis(10)])
        a = [gc, A.Size([ng])]
        if on: S.ifs['on'] = ('ng', None); a.append(SArray([S.dim('non', 0, 4)], lambda k: t.mk('idx', t.ifun('on', (k,), 'ng')), 'i'))
        return a
    return f
def pq_spec(gc, ng, on=None):
    ax = gc.axes[0]; n = ng.pos[0]; cat = ax.kind == 'cat'
    ra = n if on is None else on.axes[0]
    ix = (lambda k: k) if on is None else (lambda k: A.as_index(on.num(k)))
    P_ = SArray([ra, fixaxis(10)], lambda k, j: gc.num((0, ix(k)) if cat else ix(k), j), 'f')
    Q_ = SArray([ra, fixaxis(10)], lambda k, j: gc.num((1, ix(k)), j), 'f') if cat else np.array([])
    return P_, Q_
cPq = register(FunContract(pqcost, pq_spec, {'%s%s' % ('real and reactive' if q else 'real only', ', selected units' if on else ''): pq_args(q, on) for q in (0, 1) for on in (0, 1)}))
CONTRACTS += [cPq]

# ---- run-time: cost models evaluated independently on the real code ---------------
def cost1(row, x):
    n = int(row[NCOST])
    if row[MODEL] == POLYNOMIAL:
        return sum(row[COST + j] * x ** (n - 1 - j) for j in range(n))
    xs = row[COST:COST + 2 * n:2]; ys = row[COST + 1:COST + 2 * n:2]
    k = 0
    while k < n - 2 and x >= xs[k + 1]: k += 1
    return ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (xs[k + 1] - xs[k])
def deriv1(row, x, d):
    n = int(row[NCOST]); c = np.array(row[COST:COST + n])
    p = np.poly1d(c)
    return p.deriv(d)(x) if d else p(x)
def rt_table(rng, k, kinds=('poly', 'pwl')):
    ng = rng.randint(1, 7)
    return ng, G.gencost_for(rng, ng, kinds)
def points(rng, gc):
    x = rng.uniform(-60, 260, gc.shape[0])
    for i, r in enumerate(gc):
        if rng.rand() < .4 and r[MODEL] == PW_LINEAR: x[i] = r[COST + 2 * rng.randint(int(r[NCOST]))]
        elif rng.rand() < .1: x[i] = 0
    return x
def by_value(rng, k):
    ng, gc = rt_table(rng, k, [('poly', 'pwl'), ('poly',), ('pwl',)][k % 3])
    x = points(rng, gc); g0, x0 = gc.copy(), x.copy()
    v = totcost(gc, x)
    need(np.array_equal(gc, g0) and np.array_equal(x, x0), 'totcost modifies its arguments')
    needclose(v, [cost1(r, y) for r, y in zip(gc, x)], 'total cost', 1e-9, gencost=gc, Pg=x)
    ip = np.flatnonzero(gc[:, MODEL] == POLYNOMIAL)
    if len(ip):
        for d in range(4):
            v = polycost(gc[ip], x[ip], d)
            needclose(v, [deriv1(gc[i], x[i], d) for i in ip], 'derivative %d' % d, 1e-9, gencost=gc[ip], Pg=x[ip])
        need(np.array_equal(gc, g0) and np.array_equal(x, x0), 'polycost modifies its arguments')
    return (ng, len(ip))
def by_mod(rng, k):
    ng, gc = rt_table(rng, k)
    mode = MODES[k % 4]
    al = rng.uniform(.3, 2.5) if mode == 'SCALE_X' else rng.uniform(-3, 3)
    g0 = gc.copy()
    out = modcost(gc, al, mode) if mode != 'SCALE_F' or rng.rand() < .5 else modcost(gc, al)
    need(np.array_equal(gc, g0), 'modcost modifies its argument')
    need(np.array_equal(out[:, :COST], gc[:, :COST]), 'model, start-up, shut-down or number of entries changed', gencost=gc)
    for _ in range(3):
        x = points(rng, gc)
        xo = {'SCALE_F': x, 'SHIFT_F': x, 'SCALE_X': x * al, 'SHIFT_X': x + al}[mode]
        a = np.array([cost1(r, y) for r, y in zip(gc, x)]); b = np.array([cost1(r, y) for r, y in zip(out, xo)])
        needclose(b, {'SCALE_F': a * al, 'SHIFT_F': a + al, 'SCALE_X': a, 'SHIFT_X': a}[mode], mode, 1e-8, gencost=gc, alpha=al, x=x)
    return (mode, ng)
def by_split(rng, k):
    ng = rng.randint(1, 6); q = k % 2
    gc = G.gencost_for(rng, ng, q=bool(q))
    on = None if k % 4 < 2 else np.sort(rng.permutation(ng)[:rng.randint(1, ng + 1)])
    p, qq = pqcost(gc, ng) if on is None else pqcost(gc, ng, on)
    o = np.arange(ng) if on is None else on
    need(np.array_equal(p, gc[o]), 'real power rows', gencost=gc, on=o)
    if q: need(np.array_equal(qq, gc[ng + o]), 'reactive power rows', gencost=gc, on=o)
    else: need(len(qq) == 0, 'no reactive rows', gencost=gc)
    return (ng, q)
RUNTIME = [RT('cost values and derivatives', by_value, 120, 1500, ['totcost', 'polycost'], 'up to 6 rows, 4 coefficients, 4 breakpoints'),
           RT('cost transformations', by_mod, 120, 1500, ['modcost', 'polyshift'], 'up to 6 rows'),
           RT('real/reactive split', by_split, 40, 400, ['pqcost'], 'up to 5 generators')]
ASSUMPTIONS = ['contracts cover every number of generators and every value for rows of up to %d coefficients or %d breakpoints (bounded in that respect)' % (NC, NP),
               'breakpoints of a piecewise linear cost are distinct and increasing; scaling of the output by a positive factor']
LEVEL = 'other'
