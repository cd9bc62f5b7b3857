from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from pv import terms as t, arrays as A, solve
from pv.arrays import SArray, Size, dimaxis, fixaxis, cataxis
from .net import *
from . import gen as G
from .gen import need, needclose
import numpy as np
from pypower.isload import isload
from pypower.hasPQcap import hasPQcap
from pypower.makeAvl import makeAvl
from pypower.makeApq import makeApq
from pypower.makeAang import makeAang
from pypower.makeAy import makeAy
from pypower.idx_gen import *
from pypower.idx_brch import *
from pypower.idx_cost import *

zz = lambda p=.5: (lambda rng, env, *i: 0.0 if rng.random() < p else rng.uniform(-40, 40))
GC = {PMIN: ('r', zz(.3)), PMAX: ('r', zz(.6)), QMIN: ('r', zz()), QMAX: ('r', zz()), PC1: ('r', zz(.4)), PC2: ('r', zz(.4))}
def load(g, i): return t.mkand(t.lt0(g.num(i, PMIN)), t.cmp_eq(g.num(i, PMAX), t.ZERO))
def vec(ax, f, kind='b'): return SArray([ax], f, kind)

# ---- isload ---------------------------------------------------------------------------
cLoad = register(FunContract(isload, lambda g: vec(g.axes[0], lambda i: load(g, i)), {'any table': lambda S: [S.dim("nb", 1, 4) and gen_table(S, S.dim('ng', 0, 4), cols=GC)]}))

# ---- hasPQcap ---------------------------------------------------------------------------
def qlim_at_pmax(g, i, q1, q2):
    n = lambda c: g.num(i, c)
    return n(q1) + (n(PMAX) - n(PC1)) * (n(q2) - n(q1)) / (n(PC2) - n(PC1))
def curve(g, i): return t.mknot(t.cmp_eq(g.num(i, PC1), g.num(i, PC2)))
def upper(g, i): return t.mkand(curve(g, i), t.lt0(qlim_at_pmax(g, i, QC1MAX, QC2MAX) - g.num(i, QMAX)))
def lower(g, i): return t.mkand(curve(g, i), t.lt0(g.num(i, QMIN) - qlim_at_pmax(g, i, QC1MIN, QC2MIN)))
def cap(g, i, hilo): return upper(g, i) if hilo == 'U' else lower(g, i) if hilo == 'L' else t.mkor(upper(g, i), lower(g, i))
def cap_args(h):
    return lambda S: [S.dim("nb", 1, 4) and gen_table(S, S.dim('ng', 0, 4), cols=GC)] + ([] if h is None else [h])
cCap = register(FunContract(hasPQcap, lambda g, hilo='B': vec(g.axes[0], lambda i: cap(g, i, hilo)), {'%s' % h: cap_args(h) for h in (None, 'B', 'U', 'L')}))

# ---- makeAvl ------------------------------------------------------------------------------
def avl_args(S):
    S.dim('nb', 1, 4); base = S.scalar('baseMVA', 'p'); ng = S.dim('ng', 0, 4)
    return [base, gen_table(S, ng, cols=GC)]
def empty(x): return A.match_axes(A.aslift(x).axes[0], fixaxis(0)) is None if not isinstance(x, SArray) else A.match_axes(x.axes[0], fixaxis(0)) is None
def find(ax, cond): return A.find(vec(ax, cond))
def avl_post(out, args, snap, ghost, it):
    base, g = snap; ng = g.axes[0]
    if not isinstance(out, tuple) or len(out) != 4: return [('matrix, limits and indices', lambda: False)]
    nz = lambda i, c: t.mknot(t.cmp_eq(g.num(i, c), t.ZERO))
    want = find(ng, lambda i: t.mkand(load(g, i), t.mkor(nz(i, QMIN), nz(i, QMAX))))
    Av, l, u, iv = [A.aslift(x) if not isinstance(x, SArray) else snapshot(x) for x in out]
    r = want.axes[0]; cols = cataxis([ng, ng])
    cl = [('rows are the dispatchable loads with a reactive part', lambda: A.match_axes(iv.axes[0], r) is None), ('indices', Claim([r], lambda k: t.br(t.mknot(A.ixeq(A.as_index(iv.entry(k)), A.as_index(want.entry(k)))))))]
    if isinstance(Av.axes[0], A.Axis) and Av.axes[0].isfix(0): return cl + [('no rows', lambda: empty(l) and empty(u)), ('one column per injection', lambda: A.match_axes(Av.axes[1], cols) is None), ('none expected', t.mknot(A.any_over(r, lambda k: t.TRUE)))]
    at = lambda k: A.as_index(want.entry(k))
    q = lambda k: t.ite(t.cmp_eq(g.num(at(k), QMIN), t.ZERO), g.num(at(k), QMAX), t.ZERO) + t.ite(t.cmp_eq(g.num(at(k), QMAX), t.ZERO), g.num(at(k), QMIN), t.ZERO)
    p = lambda k: g.num(at(k), PMIN)
    return cl + [('one row per load, one column per injection', lambda: A.match_axes(Av.axes[0], r) is None and A.match_axes(Av.axes[1], cols) is None),
                 ('only the own injections', Claim([r, cols], lambda k, j: Av.num(k, j) * (1 - eq(j[1], at(k))))),
                 ('keeps the power factor', Claim([r], lambda k: Av.num(k, (0, at(k))) * p(k) + Av.num(k, (1, at(k))) * q(k))),
                 ('row of unit length', Claim([r], lambda k: Av.num(k, (0, at(k))) * Av.num(k, (0, at(k))) + Av.num(k, (1, at(k))) * Av.num(k, (1, at(k))) - 1)),
                 ('equality', Claim([r], lambda k: l.num(k))), ('equality (upper)', Claim([r], lambda k: u.num(k))), ('limit lengths', lambda: A.match_axes(l.axes[0], r) is None and A.match_axes(u.axes[0], r) is None)]
cAvl = register(FunContract(makeAvl, None, {'any table': avl_args}, post=avl_post, callees=[cLoad]))

# ---- makeApq ---------------------------------------------------------------------------------
def apq_args(S):
    S.dim('nb', 1, 4); return [S.scalar('baseMVA', 'p'), gen_table(S, S.dim('ng', 0, 4), cols=GC)]
def apq_post(out, args, snap, ghost, it):
    base, g = snap; ng = g.axes[0]
    if not isinstance(out, tuple) or len(out) != 5 or not isinstance(out[4], dict): return [('two matrices, two limits, data', lambda: False)]
    cl = []; data = out[4]; cols = cataxis([ng, ng])
    for nm, M, ub, hl, d, ii, a, b in (('upper', out[0], out[1], 'U', 'h', 'ipqh', lambda i: g.num(i, QC1MAX) - g.num(i, QC2MAX), lambda i: g.num(i, PC2) - g.num(i, PC1)),
                                       ('lower', out[2], out[3], 'L', 'l', 'ipql', lambda i: g.num(i, QC2MIN) - g.num(i, QC1MIN), lambda i: g.num(i, PC1) - g.num(i, PC2))):
        want = find(ng, lambda i, hl=hl: cap(g, i, hl)); r = want.axes[0]
        iv = A.aslift(data[ii]) if not isinstance(data[ii], SArray) else snapshot(data[ii])
        cl += [(nm + ': rows are the units with a binding sloped limit', lambda iv=iv, r=r: A.match_axes(iv.axes[0], r) is None),
               (nm + ': indices', Claim([r], lambda k, iv=iv, want=want: t.br(t.mknot(A.ixeq(A.as_index(iv.entry(k)), A.as_index(want.entry(k)))))))]
        Mx = A.aslift(M) if not isinstance(M, SArray) else snapshot(M); ux = A.aslift(ub) if not isinstance(ub, SArray) else snapshot(ub)
        if Mx.axes[0].isfix(0):
            cl += [(nm + ': no rows', lambda ux=ux: empty(ux)), (nm + ': columns', lambda Mx=Mx: A.match_axes(Mx.axes[1], cols) is None), (nm + ': none expected', t.mknot(A.any_over(r, lambda k: t.TRUE)))]
            continue
        at = lambda k, want=want: A.as_index(want.entry(k))
        L = lambda k, a=a, b=b, at=at: t.sqrtv(a(at(k)) * a(at(k)) + b(at(k)) * b(at(k)))
        q1 = QC1MAX if hl == 'U' else QC1MIN
        dv = snapshot(data[d])
        cl += [(nm + ': shape', lambda Mx=Mx, ux=ux, r=r: A.match_axes(Mx.axes[0], r) is None and A.match_axes(Mx.axes[1], cols) is None and A.match_axes(ux.axes[0], r) is None),
               (nm + ': row', Claim([r, cols], lambda k, j, Mx=Mx, a=a, b=b, at=at, L=L: Mx.num(k, j) * L(k) - eq(j[1], at(k)) * (a, b)[j[0]](at(k)))),
               (nm + ': limit passes through the curve point', Claim([r], lambda k, ux=ux, a=a, b=b, at=at, L=L, q1=q1: ux.num(k) * L(k) * base - (a(at(k)) * g.num(at(k), PC1) + b(at(k)) * g.num(at(k), q1)))),
               (nm + ': stored coefficients', Claim([r, fixaxis(2)], lambda k, j, dv=dv, a=a, b=b, at=at, L=L: dv.num(k, j) * L(k) - (a, b)[j](at(k))))]
    return cl
cApq = register(FunContract(makeApq, None, {'any table': apq_args}, post=apq_post, callees=[cCap]))

# ---- makeAang -----------------------------------------------------------------------------------
BC = {ANGMIN: ('r', lambda rng, env, *i: rng.choice([0., -360., -400., -30., 10., -360.])), ANGMAX: ('r', lambda rng, env, *i: rng.choice([0., 360., 400., 30., -5., 360.]))}
def aang_args(ign):
    def f(S):
        S.dim('nb', 1, 4); S.pre.extend(nonempty(dimaxis('nb')))
        return [S.scalar('baseMVA', 'p'), branch_table(S, S.dim('nl', 0, 4), cols=BC), Size([dimaxis('nb')]), {'OPF_IGNORE_ANG_LIM': ign}]
    return f
def limited(b, l):
    lo, hi = b.num(l, ANGMIN), b.num(l, ANGMAX); nz = lambda x: t.mknot(t.cmp_eq(x, t.ZERO))
    return t.mkor(t.mkand(nz(lo), t.lt0(-360 - lo)), t.mkand(nz(hi), t.lt0(hi - 360)))
def aang_post(out, args, snap, ghost, it):
    b = snap[1]; nl = b.axes[0]; nb = dimaxis('nb')
    if not isinstance(out, tuple) or len(out) != 4: return [('matrix, limits and indices', lambda: False)]
    M, l, u, iv = [A.aslift(x) if not isinstance(x, SArray) else snapshot(x) for x in out]
    if snap[3]['OPF_IGNORE_ANG_LIM']: return [('no constraints', lambda: all(M.axes[0].isfix(0) and x.axes[0].isfix(0) for x in (l, u, iv))), ('columns', lambda: A.match_axes(M.axes[1], nb) is None)]
    want = find(nl, lambda i: limited(b, i)); r = want.axes[0]; at = lambda k: A.as_index(want.entry(k))
    cl = [('rows are the angle-limited branches', lambda: A.match_axes(iv.axes[0], r) is None), ('indices', Claim([r], lambda k: t.br(t.mknot(A.ixeq(A.as_index(iv.entry(k)), at(k))))))]
    if M.axes[0].isfix(0): return cl + [('columns', lambda: A.match_axes(M.axes[1], nb) is None), ('no limits', lambda: empty(l) and empty(u)), ('none expected', t.mknot(A.any_over(r, lambda k: t.TRUE)))]
    f = lambda k, c: A.as_index(b.entry(at(k), c))
    lim = lambda k, c, inf: t.ite(t.cmp_eq(b.num(at(k), c), t.ZERO), inf, b.num(at(k), c) * t.PI / 180)
    return cl + [('shape', lambda: A.match_axes(M.axes[0], r) is None and A.match_axes(M.axes[1], nb) is None),
                 ('angle difference', Claim([r, nb], lambda k, j: M.num(k, j) - eq(j, f(k, F_BUS)) + eq(j, f(k, T_BUS)))),
                 ('lower limit', Claim([r], lambda k: l.num(k) - lim(k, ANGMIN, -t.INF))),
                 ('upper limit', Claim([r], lambda k: u.num(k) - lim(k, ANGMAX, t.INF)))]
cAang = register(FunContract(makeAang, None, {'limits %s' % ('ignored' if i else 'kept'): aang_args(i) for i in (0, 1)}, post=aang_post))

# ---- makeAy: bounded in the number of cost rows and breakpoints, any values --------------------------
def ay_args(kinds, ng, gap):
    """kinds: number of breakpoints of each row (0: polynomial); rows beyond ng are reactive costs"""
    def f(S):
        n = len(kinds); w = COST + 2 * max([3] + list(kinds))
        def fn(i, j):
            if j == MODEL: return t.q(1 if kinds[i] else 2)
            if j == NCOST: return t.q(kinds[i] or 3)
            return S.inp('gc.%d.%d' % (i, j), (), 'r', lambda rng, env, *a, j=j: (j + rng.random()) * 10)
        p, q, y = (1, 1 + ng, 1 + len(kinds)) if not gap else (1 + gap, 1 + ng + 2 * gap, 1 + n + 3 * gap)
        return [S.scalar('baseMVA', 'p'), ng, SArray([fixaxis(n), fixaxis(w)], fn, 'f'), p, q, y]
    return f
def ay_post(out, args, snap, ghost, it):
    base, ng, gc, pb, qb, yb = snap; n = gc.axes[0].n
    kinds = [int(gc.num(i, NCOST).a[0]) if int(gc.num(i, MODEL).a[0]) == 1 else 0 for i in range(n)]
    ny = sum(k > 0 for k in kinds); nr = sum(k - 1 for k in kinds if k); nc = yb + ny - 1
    if not isinstance(out, tuple) or len(out) != 2: return [('matrix and limits', lambda: False)]
    M, b = [x if isinstance(x, SArray) else A.aslift(x) for x in out]
    cl = [('one row per segment, columns up to the last cost variable', lambda: M.ndim == 2 and M.axes[0].isfix(nr) and M.axes[1].isfix(nc)), ('one limit per segment', lambda: b.ndim == 1 and b.axes[0].isfix(nr))]
    k = 0; y = 0
    for i, np_ in enumerate(kinds):
        if not np_: continue
        col = pb + i - 1 if i < ng else qb + (i - ng) - 1
        for s in range(np_ - 1):
            X = lambda a, i=i: gc.num(i, COST + 2 * a) / base; C = lambda a, i=i: gc.num(i, COST + 2 * a + 1)
            m = (C(s + 1) - C(s)) / (X(s + 1) - X(s))
            # slope * injection - y <= slope * x_s - c_s
            cl.append(('row %d' % k, lambda M=M, k=k, col=col, yc=yb + y - 1, m=m: all(solve.is_zero(t.lift(M.num(k, j)) - (m if j == col else -1 if j == yc else 0), it.path) for j in range(nc))))
            cl.append(('limit %d' % k, Claim([], lambda b=b, k=k, m=m, s=s, X=X, C=C: b.num(k) - (m * X(s) - C(s)))))
            k += 1
        y += 1
    return cl
AY = {}
for kinds, ng in (((), 0), ((0, 0), 2), ((3,), 1), ((2, 3), 2), ((0, 3, 4), 3), ((3, 0, 2, 5), 4), ((3, 4, 3, 2), 2), ((0, 3, 2, 0, 0, 4), 3), ((3, 3, 3, 3, 3, 3), 3), ((6,), 1)):
    if kinds:
        for gap in (0, 1): AY['rows of %s points, %d units%s' % (','.join(map(str, kinds)), ng, ', gaps between blocks' if gap else '')] = ay_args(kinds, ng, gap)
cAy = register(FunContract(makeAy, None, AY, post=ay_post))
CONTRACTS = [cLoad, cCap, cAvl, cApq, cAang, cAy]

# ---- at run time: a point satisfies the assembled linear constraints iff it respects the modelled limits ------
def opf_case(rng, q=True):
    c = G.internal_case(rng, offs=False); gen, br = c['gen'], c['branch']; ng = gen.shape[0]
    for i in range(ng):
        k = rng.randint(4)
        if k == 0:      # dispatchable load
            gen[i, PMIN] = -rng.uniform(10, 60); gen[i, PMAX] = 0; gen[i, PG] = gen[i, PMIN]
            z = rng.randint(3); gen[i, QMIN], gen[i, QMAX] = ((-rng.uniform(1, 30), 0), (0, rng.uniform(1, 30)), (0, 0))[z]
            gen[i, QG] = gen[i, QMIN] + gen[i, QMAX]
        elif k == 1:    # sloped capability curve
            gen[i, PC1] = rng.uniform(0, 30); gen[i, PC2] = gen[i, PC1] + rng.uniform(5, 80)
            gen[i, QC1MAX], gen[i, QC2MAX] = rng.uniform(20, 110), rng.uniform(5, 110); gen[i, QC1MIN], gen[i, QC2MIN] = -rng.uniform(5, 90), -rng.uniform(1, 90)
        elif k == 2 and rng.rand() < .4: gen[i, PMIN], gen[i, PMAX] = ((0, 0), (-5, 10), (0, 5))[rng.randint(3)]
    for l in range(br.shape[0]):
        lo = rng.choice([0, -360, -400, -rng.uniform(5, 40), rng.uniform(1, 4)]); hi = rng.choice([0, 360, 400, rng.uniform(5, 40), 2.0, -rng.uniform(.1, 3)])
        br[l, ANGMIN], br[l, ANGMAX] = lo, hi
    c['gencost'] = G.gencost_for(rng, ng, q=q)
    return c
def is_load(g): return g[PMIN] < 0 and g[PMAX] == 0
def curve_limits(g):
    if g[PC1] == g[PC2]: return None
    at = lambda p, a, b: g[a] + (p - g[PC1]) * (g[b] - g[a]) / (g[PC2] - g[PC1])
    return (lambda p: at(p, QC1MAX, QC2MAX)) if at(g[PMAX], QC1MAX, QC2MAX) < g[QMAX] else None, (lambda p: at(p, QC1MIN, QC2MIN)) if at(g[PMAX], QC1MIN, QC2MIN) > g[QMIN] else None
def points(row):
    n = int(row[NCOST]); return row[COST:COST + 2 * n:2], row[COST + 1:COST + 2 * n:2]
def rt_limits(rng, k):
    from pypower.opf_setup import opf_setup
    from pypower.ppoption import ppoption
    c = opf_case(rng, q=rng.rand() < .5); dc = rng.rand() < .25; ign = int(rng.rand() < .2)
    nb, ng, base = c['bus'].shape[0], c['gen'].shape[0], c['baseMVA']; nl = c['branch'].shape[0]
    c['order'] = {'state': 'i', 'ext': {}, 'int': {}}
    om = opf_setup({a: (b.copy() if hasattr(b, 'copy') else b) for a, b in c.items()}, ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=dc, OPF_ALG_DC=200, OPF_IGNORE_ANG_LIM=ign))
    M, l, u = om.linear_constraints(); vv, ll, _, _ = om.get_idx(); nv = om.getN('var')
    rows = c['gencost'][:ng] if dc else c['gencost']
    pw = [i for i in range(rows.shape[0]) if rows[i, MODEL] == PW_LINEAR and rows[i, NCOST] > 2]
    if pw: need(om.getN('var', 'y') == len(pw), 'one cost variable per piecewise-linear cost row')
    at = lambda s, i=0: vv['i1'][s] + i
    ang = [] if ign else [i for i in range(nl) if (c['branch'][i, ANGMIN] != 0 and c['branch'][i, ANGMIN] > -360) or (c['branch'][i, ANGMAX] != 0 and c['branch'][i, ANGMAX] < 360)]
    lims = [curve_limits(g) for g in c['gen']]
    # number of generated rows
    segs = sum(int(rows[i, NCOST]) - 1 for i in pw)
    loads = [] if dc else [i for i in range(ng) if is_load(c['gen'][i]) and (c['gen'][i, QMIN] != 0 or c['gen'][i, QMAX] != 0)]
    for nm, n in (('ycon', segs),) + (() if dc else (('vl', len(loads)), ('PQh', sum(x is not None and x[0] is not None for x in lims)), ('PQl', sum(x is not None and x[1] is not None for x in lims)))) + (('ang', len(ang)),):
        need(om.getN('lin', nm) == n, 'number of %s constraints' % nm, case=c)
    for rep in range(6):
        x = np.zeros(nv); deg = rng.uniform(-25, 25, nb); x[at('Va'):at('Va') + nb] = np.deg2rad(deg)
        P = np.array([rng.uniform(g[PMIN], g[PMAX] + 1e-9) for g in c['gen']]); Q = np.array([rng.uniform(g[QMIN] - 10, g[QMAX] + 10) for g in c['gen']])
        for i in loads:
            if rng.rand() < .6: Q[i] = P[i] * (c['gen'][i, QMIN] + c['gen'][i, QMAX]) / c['gen'][i, PMIN]
        x[at('Pg'):at('Pg') + ng] = P / base
        if not dc: x[at('Qg'):at('Qg') + ng] = Q / base; x[at('Vm'):at('Vm') + nb] = rng.uniform(.9, 1.1, nb)
        # expected margins, element by element (the smallest decides the block; rows may be scaled, so only the sign is compared)
        exp = {'ycon': [], 'vl': [], 'PQh': [], 'PQl': [], 'ang': []}
        for y, i in enumerate(pw):
            px, pc = points(rows[i]); z = P[i] if i < ng else Q[i - ng]
            segv = [pc[s] + (pc[s + 1] - pc[s]) / (px[s + 1] - px[s]) * (z - px[s]) for s in range(len(px) - 1)]
            x[at('y', y)] = max(segv) + rng.choice([-1, 1, 5, -20]) if rng.rand() < .7 else segv[rng.randint(len(segv))] + rng.uniform(-5, 5)
            exp['ycon'].append(x[at('y', y)] - max(segv))
        for i in loads:
            g = c['gen'][i]; exp['vl'].append(-abs(Q[i] * g[PMIN] - P[i] * (g[QMIN] + g[QMAX])))
        for i in range(ng):
            if lims[i] is None or dc: continue
            if lims[i][0]: exp['PQh'].append(lims[i][0](P[i]) - Q[i])
            if lims[i][1]: exp['PQl'].append(Q[i] - lims[i][1](P[i]))
        for i in ang:
            b = c['branch'][i]; d = deg[int(b[F_BUS])] - deg[int(b[T_BUS])]
            exp['ang'].append(min([np.inf] + ([d - b[ANGMIN]] if b[ANGMIN] != 0 else []) + ([b[ANGMAX] - d] if b[ANGMAX] != 0 else [])))
        v = M @ x if om.getN('lin') else np.zeros(0)
        for nm, m in exp.items():
            if nm not in ll['i1'] or (dc and nm in ('vl', 'PQh', 'PQl')): continue
            a, b = ll['i1'][nm], ll['iN'][nm]
            got = min([np.inf] + list(np.minimum(v[a:b] - l[a:b], u[a:b] - v[a:b]))); want = min([np.inf] + m)
            if nm == 'vl':
                need((got > -1e-9) == (want > -1e-7) or -1e-4 < want < 0, 'constant power factor: constraints %s by a point that %s it' % (('violated', 'satisfied')[int(got > -1e-9)], ('breaks', 'keeps')[int(want > -1e-7)]), case=c, P=P, Q=Q)
            elif abs(want) > 1e-6:
                need((got > 0) == (want > 0), '%s constraints %s at a point with margin %.6g' % ({'ycon': 'cost segment', 'PQh': 'upper capability', 'PQl': 'lower capability', 'ang': 'angle difference'}[nm], ('violated', 'satisfied')[int(got > 0)], want), case=c, x=x)
    return (segs, len(loads), len(ang), int(dc))
def rt_recog(rng, k):
    g = np.zeros((rng.randint(1, 6), 21))
    for c in (PMIN, PMAX, QMIN, QMAX, PC1, PC2): g[:, c] = rng.choice([0, 0, -20., 35.], g.shape[0])
    for c in (QC1MAX, QC2MAX, QC1MIN, QC2MIN): g[:, c] = rng.choice([0, -20., 35.], g.shape[0])
    need(list(isload(g)) == [bool(is_load(r)) for r in g], 'dispatchable loads recognised', gen=g)
    w = [curve_limits(r) or (None, None) for r in g]
    for hl, f in (('U', lambda a: a[0] is not None), ('L', lambda a: a[1] is not None), ('B', lambda a: a[0] is not None or a[1] is not None)):
        need([bool(z) for z in hasPQcap(g, hl)] == [f(a) for a in w], 'sloped capability limits (%s)' % hl, gen=g)
RUNTIME = [RT('limits of the assembled problem', rt_limits, 200, 2500, ['makeAvl', 'makeApq', 'makeAang', 'makeAy', 'opf_setup', 'hasPQcap', 'isload'], 'up to 8 buses, 5 units, 4 breakpoints'),
           RT('recognition of loads and curves', rt_recog, 40, 1000, ['isload', 'hasPQcap'], 'up to 5 units')]
ASSUMPTIONS = ['a zero angle limit means no limit on that side; a branch is angle-limited when a nonzero limit lies inside +-360 degrees, and then every nonzero limit of it is imposed',
               'makeAy is proved for tables of up to 6 cost rows with up to 6 breakpoints each (ten layouts, with and without gaps between the variable blocks); breakpoints of a row are distinct',
               'a dispatchable load has at most one nonzero reactive limit (makeAvl refuses others); a curve has distinct PC1 and PC2', 'all units of a reduced (internal) case are in service; the case reaches opf_setup in internal form']
EXPLANATION = 'rows generated by each constraint builder equal, entry by entry, the modelled limit; rows exist exactly for the elements with such data'
LEVEL = 'other'
