from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from pv import solve
from pv.arrays import dimaxis, fixaxis, cataxis
from .net import *
from . import gen as G, c03
from .gen import need, needclose
import numpy as np
from pypower.makePTDF import makePTDF
from pypower.makeLODF import makeLODF
from pypower.makeBdc import makeBdc
from pypower.idx_bus import *

W = {}
def tables(S):
    nb, nl = S.dim('nb', 2, 4), S.dim('nl', 1, 4)
    W['nb'], W['nl'] = nb, nl
    return [S.scalar('baseMVA', 'p'), bus_table(S, nb, cols={1: ('enum', (1, 2, 3, 4))}), branch_table(S, nl)]
def args(kind):
    def f(S):
        a = tables(S); nb = W['nb']
        if kind == 'bus':
            S.index('slack', (), 'nb'); return a + [t.mk('idx', t.ifun('slack', (), 'nb'))]
        if kind == 'weights': return a + [S.array('slack', [nb], 'p')]
        if kind == 'matrix': return a + [S.array('slack', [nb, nb])]
        S.pre.append(A.any_over(nb, lambda i: t.cmp_eq(a[1].num(i, BUS_TYPE), t.q(3))))
        return a
    return f
def ptdf_post(kind):
    def f(out, args, snap, ghost, it):
        nb, nl = W['nb'], W['nl']
        if not isinstance(out, SArray) or out.ndim != 2: return [('returns a matrix', lambda: False)]
        H = snapshot(out)
        cl = [('one row per branch, one column per bus', lambda: A.match_axes(H.axes[0], nl) is None and A.match_axes(H.axes[1], nb) is None)]
        sol = [g for g in ghost if hasattr(g, 'residual')]
        if len(sol) != 1: return cl + [('one linear solve', lambda: False)]
        s = sol[0]
        B, Bf, _, _ = spec_makeBdc(*snap[:3])
        first = t.ic(0)
        if kind == 'bus': sl = A.as_index(snap[3])
        elif kind == 'none': sl = A.nth(dimaxis('nb', lambda i: t.cmp_eq(snap[1].num(i, BUS_TYPE), t.q(3))), 0)
        else: sl = None
        # the single-slack factors h: solved unknowns away from the slack, zero at the slack
        h0 = sl if sl is not None else first
        x = lambda l, k: s.x.num(k, l) * t.br(t.mknot(A.ixeq(k, h0)))
        if sl is not None:
            cl += [('factors', Claim([nl, nb], lambda l, k: H.num(l, k) - x(l, k))),
                   ('slack column is zero', Claim([nl, nb], lambda l, k: H.num(l, k) * t.br(A.ixeq(k, h0))))]
        elif kind == 'weights':
            w = snap[3]; tot = A.sum_over(nb, lambda j: w.num(j))
            v = lambda l: A.sum_over(nb, lambda j: x(l, j) * w.num(j) / tot)
            cl += [('factors', Claim([nl, nb], lambda l, k: H.num(l, k) - (x(l, k) - v(l)))),
                   ('injections in proportion to the slack weights cause no flow', Claim([nl], lambda l: A.sum_over(nb, lambda k: H.num(l, k) * w.num(k))))]
        else: cl += [('factors', Claim([nl, nb], lambda l, k: H.num(l, k) - A.sum_over(nb, lambda j: x(l, j) * snap[3].num(j, k))))]
        # what is solved: injections caused by any angle (reference bus 0) give that angle's flows
        cl.append(('solved system', Claim([nb, nl], lambda j, l: t.br(t.mknot(A.ixeq(j, first))) * (A.sum_over(nb, lambda k: x(l, k) * B.num(k, j)) - Bf.num(l, j) - s.residual(j, l)))))
        return cl
    return f
CONTRACTS = [FunContract(makePTDF, None, {k: args(k)}, post=ptdf_post(k), callees=[c03.CONTRACTS[0]], name='makePTDF(%s)' % k) for k in ('none', 'bus', 'weights', 'matrix')]

def lodf_args(S):
    nb, nl = S.dim('nb', 2, 4), S.dim('nl', 1, 4)
    return [branch_table(S, nl), S.array('PTDF', [nl, nb])]
def spec_lodf(branch, P):
    nl, nb = P.axes
    H = lambda l, k: P.num(l, row(nb, branch, F_BUS, k)) - P.num(l, row(nb, branch, T_BUS, k))
    return SArray([nl, nl], lambda l, k: t.ite(A.ixeq(l, k), t.lift(-1), H(l, k) * t.power(1 - H(k, k), -1)), 'f')
CONTRACTS.append(FunContract(makeLODF, spec_lodf, {'any': lodf_args}))
# ---- lemmas over the contracts --------------------------------------------------
def lemma_outage(which):
    """Removing branch k is the rank-one change B' = B - b_k d_k d_k^T.  With angles th (base) and
    th' = th + a*u where B u = d_k and a = f_k/(1 - h_kk), h_kk = b_k d_k^T u, f_k = b_k d_k^T th:
    B' th' = B th (same injections), and the flow on l != k changes by a*b_l d_l^T u = LODF(l,k) f_k."""
    nb = dimaxis('nb')
    i = t.iv('i', 'nb')
    fk, tk = t.iv('fk', 'nb'), t.iv('tk', 'nb')
    d = lambda j: t.br(A.ixeq(j, fk)) - t.br(A.ixeq(j, tk))
    b = t.inp('bk', ())
    th = lambda j: t.inp('th', (j,)); u = lambda j: t.inp('u', (j,)); B = lambda p, j: t.inp('B', (p, j))
    du = u(fk) - u(tk)
    f = b * (th(fk) - th(tk))
    a = f * t.power(1 - b * du, -1)
    if which == 0:
        # B'th' at row i, using the hypothesis B u = d_k  (the sum of B u is replaced by d_k)
        Bu = d(i)
        lhs = A.sum_over(nb, lambda j: B(i, j) * th(j)) + a * Bu - b * d(i) * ((th(fk) - th(tk)) + a * du)
        return solve.is_zero(lhs - A.sum_over(nb, lambda j: B(i, j) * th(j)))
    if which == 1:
        bl = t.inp('bl', ()); dl = t.inp('ul', ())
        return solve.is_zero(bl * a * dl - (bl * dl) * t.power(1 - b * du, -1) * f)
    # the sum over buses of d_k times angles is the angle difference
    return solve.is_zero(A.sum_over(nb, lambda j: d(j) * th(j)) - (th(fk) - th(tk)))
LEMMAS = [('removing the branch leaves the injections unchanged', lambda: lemma_outage(0)),
          ('the flow change is the factor times the pre-outage flow', lambda: lemma_outage(1)),
          ('incidence row times angles is the angle difference', lambda: lemma_outage(2))]

# ---- run-time: independent DC solves on the real code ---------------------------
def dcnet(c):
    nb = c['bus'].shape[0]; nl = c['branch'].shape[0]
    inc = np.zeros((nl, nb)); b = np.zeros(nl)
    for l, r in enumerate(c['branch']):
        inc[l, int(r[F_BUS])] += 1; inc[l, int(r[T_BUS])] -= 1
        if r[BR_STATUS] > 0: b[l] = 1 / r[BR_X] / (r[TAP] if r[TAP] else 1.0)
    return inc, b
def flow_of(inc, b, P, drop=None):
    """flows caused by balanced injections P (any reference gives the same)"""
    b = b.copy()
    if drop is not None: b[drop] = 0
    B = inc.T @ (b[:, None] * inc)
    keep = np.arange(1, len(P))
    if len(keep) and np.linalg.cond(B[np.ix_(keep, keep)]) > 1e8: return None
    th = np.zeros(len(P)); th[keep] = np.linalg.solve(B[np.ix_(keep, keep)], P[keep])
    return b * (inc @ th)
def net_for(rng, k):
    if k < len(G.SHIPPED): return G.renumber(G.shipped(G.SHIPPED[k]))
    return G.internal_case(rng, brcols=[13, 17][k % 2])
def by_dc(rng, k):
    c = net_for(rng, k)
    nb, nl = c['bus'].shape[0], c['branch'].shape[0]
    if nb < 2: raise Skip()
    inc, b = dcnet(c)
    keep = {x: c[x].copy() for x in ('bus', 'branch')}
    kind = ('none', 'bus', 'weights', 'matrix')[(k + rng.randint(4)) % 4]
    if kind == 'none':
        H = makePTDF(c['baseMVA'], c['bus'], c['branch']); w = np.zeros(nb); w[np.flatnonzero(c['bus'][:, BUS_TYPE] == REF)[0]] = 1
    elif kind == 'bus':
        s = rng.randint(nb); H = makePTDF(c['baseMVA'], c['bus'], c['branch'], s); w = np.zeros(nb); w[s] = 1
    elif kind == 'weights':
        w = rng.uniform(0, 1, nb) * (rng.rand(nb) < .7); w[rng.randint(nb)] += .5; w *= rng.choice([.01, .2, 1, 30.]); w0 = w.copy()
        H = makePTDF(c['baseMVA'], c['bus'], c['branch'], w); need(np.array_equal(w, w0), 'slack weights changed'); w = w / w.sum()
    else:
        S = rng.uniform(-1, 1, (nb, nb)); S -= S.mean(0); S0 = S.copy()
        H = makePTDF(c['baseMVA'], c['bus'], c['branch'], S); need(np.array_equal(S, S0), 'slack matrix changed')
    for x in keep: need(np.array_equal(keep[x], c[x]), 'makePTDF modifies %s' % x, case=keep)
    need(H.shape == (nl, nb), 'shape', case=c)
    for i in (range(nb) if nb < 12 else rng.choice(nb, 10, replace=False)):
        if kind == 'matrix': P = S[:, i]
        else: P = -w.copy(); P[i] += 1
        F = flow_of(inc, b, P)
        if F is None: raise Skip()
        needclose(H[:, i], F, 'flows of one unit at bus %d (slack %s)' % (i, kind), 1e-6, case=c)
    if kind != 'matrix': needclose(H @ w, np.zeros(nl), 'injections at the slack cause no flow', 1e-6, case=c)
    return (kind, nb, nl)
def by_outage(rng, k):
    c = net_for(rng, k)
    nb, nl = c['bus'].shape[0], c['branch'].shape[0]
    inc, b = dcnet(c)
    H = makePTDF(c['baseMVA'], c['bus'], c['branch'], [0, rng.randint(nb)][k % 2])
    H0, br0 = H.copy(), c['branch'].copy()
    with np.errstate(all='ignore'): L = makeLODF(c['branch'], H)
    need(np.array_equal(H, H0) and np.array_equal(c['branch'], br0), 'makeLODF modifies its inputs', case=c)
    need(L.shape == (nl, nl), 'shape', case=c)
    P = rng.uniform(-1, 1, nb); P[0] -= P.sum()
    F = flow_of(inc, b, P)
    if F is None: raise Skip()
    n = 0
    for j in (range(nl) if nl < 20 else rng.choice(nl, 12, replace=False)):
        if b[j] == 0: continue
        F1 = flow_of(inc, b, P, j)
        if F1 is None: continue           # the outage islands the network
        n += 1
        need(abs(L[j, j] + 1) < 1e-9, 'the outaged branch loses exactly its own flow', case=c, branch=j)
        needclose(F + L[:, j] * F[j], F1, 'post-outage flows (branch %d out)' % j, 1e-6, case=c)
    return (n, nb)
RUNTIME = [RT('distribution factors against separate DC solves', by_dc, 80, 800, ['makePTDF'], 'networks up to 9 buses, shipped cases'),
           RT('outage factors against removing the branch', by_outage, 60, 600, ['makeLODF', 'makePTDF'], 'networks up to 9 buses, shipped cases; outages that do not island')]
ASSUMPTIONS = ['bus numbers are the row positions', 'slack weights do not sum to zero', 'the linear solve returns a solution (assumed contract of numpy.linalg.solve)',
               'outage factors: the removed branch does not island the network (1 - h_kk nonzero)']
