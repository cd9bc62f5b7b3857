from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from .opfnet import *
from . import gen as G, c05, c02
from .derivs import *
from .gen import need, needclose
import numpy as np
from pypower.opf_consfcn import opf_consfcn
from pypower.makeSbus import makeSbus

W = {}
def args(lim, sub=False, **kw):
    """lim: flow measure; sub: constrained lines given as an index vector"""
    def f(S):
        o = opf(S, user=False, on=True, **kw); W['o'] = o
        if sub:
            o.il_ax = S.dim('nl2', 1, 3); S.ifs['il'] = ('nl', None)
            il = SArray([o.il_ax], lambda k: t.mk('idx', t.ifun('il', (k,), 'nl')), 'i')
            o.il = lambda k: t.ifun('il', (k,), 'nl')
        else: o.il_ax = o.nl; o.il = lambda k: k; il = None
        Y = [sparse_c(S, n, [ax, o.nb]) for n, ax in (('Ybus', o.nb), ('Yf', o.il_ax), ('Yt', o.il_ax))]
        o.Y = Y; o.lim = lim
        return [o.x, o.om] + Y + [{'OPF_FLOW_LIM': lim}] + ([il] if sub else [])
    return f
def voltage(o): return SArray([o.nb], lambda i: o.get('Vm', i) * t.expv(t.J * o.get('Va', i)), 'c')
def mismatch(o, i):
    """power into the network less net injection at bus i, per unit"""
    V = voltage(o)
    out = V.num(i) * t.conj(A.sum_over(o.nb, lambda k: o.Y[0].num(i, k) * V.num(k)))
    g = A.sum_over(o.ng, lambda k: eq(row(o.nb, o.gen0, GEN_BUS, k), i) * (o.get('Pg', k) + t.J * o.get('Qg', k)))
    return out - g + (o.bus.num(i, PD) + t.J * o.bus.num(i, QD)) / o.base
def flow2(o, e, l):
    """squared flow of constrained branch l at end e in the chosen measure"""
    V = voltage(o)
    I = A.sum_over(o.nb, lambda k: o.Y[1 + e].num(l, k) * V.num(k))
    if o.lim == 2: return t.real(I) * t.real(I) + t.imag(I) * t.imag(I)
    Sx = V.num(row(o.nb, o.branch, (F_BUS, T_BUS)[e], o.il(l))) * t.conj(I)
    return t.real(Sx) * t.real(Sx) + (t.imag(Sx) * t.imag(Sx) if o.lim == 0 else t.ZERO)
def limit2(o, l):
    r = o.branch.num(o.il(l), RATE_A)
    z = t.br(t.cmp_eq(r, t.ZERO))
    return z * t.INF + (1 - z) * r * r / o.base / o.base
def post(out, args_, snap, ghost, it):
    o = W['o']
    h, g, dh, dg = [snapshot(z) for z in out]
    ga = cataxis([o.nb, o.nb]); ha = cataxis([o.il_ax, o.il_ax])
    part = lambda b, z: t.real(z) if b == 0 else t.imag(z)
    G_ = lambda ix: part(ix[0], mismatch(o, ix[1]))
    H_ = lambda ix: flow2(o, ix[0], ix[1])
    cl = [('one equality per bus and part', lambda: g.ndim == 1 and A.match_axes(g.axes[0], ga) is None),
          ('power balance', Claim([ga], lambda i: g.num(i) - G_(i))),
          ('equality Jacobian shape', lambda: A.match_axes(dg.axes[0], o.xa) is None and A.match_axes(dg.axes[1], ga) is None),
          ('equality Jacobian', Claim([o.xa, ga], lambda j, i: dg.num(j, i) - grad(o, G_(i), j)))]
    if dh is not None:
        cl += [('one inequality per constrained branch end', lambda: h.ndim == 1 and A.match_axes(h.axes[0], ha) is None),
               ('flow limits', Claim([ha], lambda i: h.num(i) - H_(i) + limit2(o, i[1]))),
               ('inequality Jacobian shape', lambda: A.match_axes(dh.axes[0], o.xa) is None and A.match_axes(dh.axes[1], ha) is None),
               ('inequality Jacobian', Claim([o.xa, ha], lambda j, i: dh.num(j, i) - grad(o, H_(i), j)))]
    else: cl.append(('no inequality only without constrained branches', t.mknot(A.any_over(o.il_ax, lambda k: t.TRUE))))
    return cl
CASES = {}
for lim, nm in ((0, 'apparent power'), (1, 'real power'), (2, 'current')):
    for sub in (0, 1):
        CASES['%s, %s' % (nm, 'selected branches' if sub else 'all branches')] = args(lim, bool(sub))
cCons = register(FunContract(opf_consfcn, None, CASES, post=post, callees=[c05.CONTRACTS[0], c05.CONTRACTS[1], c05.CONTRACTS[2], c05.CONTRACTS[3], c02.CONTRACTS[0]], modifies=(1,)))
CONTRACTS = [cCons]

# ---- run time ------------------------------------------------------------------------
def setup(rng, k, q=False, user=False):
    from pypower.makeYbus import makeYbus
    lim = k % 3
    om, c = real_om(rng, [('poly', 'pwl'), ('poly',)][k % 2], q=q, user=user, nz=(k % 4 == 1) * 2, OPF_FLOW_LIM=lim)
    c = om.get_ppc()
    Ybus, Yf, Yt = makeYbus(c['baseMVA'], c['bus'], c['branch'])
    nl = c['branch'].shape[0]
    if k % 5 == 0: il = None
    elif k % 5 == 1: il = rng.permutation(nl)[:rng.randint(0, nl + 1)]
    else: il = np.flatnonzero((c['branch'][:, RATE_A] != 0) & (c['branch'][:, RATE_A] < 1e10))
    if il is not None: Yf = Yf[il]; Yt = Yt[il]
    return om, c, Ybus, Yf, Yt, {'OPF_FLOW_LIM': lim}, il
def real_cons(om, c, x, lim, il):
    """constraint values by plain loops over the branches"""
    vv = om.get_idx()[0]
    part = lambda n: x[vv['i1'][n]:vv['iN'][n]]
    V = part('Vm') * np.exp(1j * part('Va')); base = c['baseMVA']
    S = G.injections(c, V) + (c['bus'][:, PD] + 1j * c['bus'][:, QD]) / base
    for gi in range(c['gen'].shape[0]): S[int(c['gen'][gi, GEN_BUS])] -= part('Pg')[gi] + 1j * part('Qg')[gi]
    h = []
    for e in (0, 1):
        for l in (range(c['branch'].shape[0]) if il is None else il):
            b = c['branch'][l]; f, to = int(b[F_BUS]), int(b[T_BUS])
            I = G.branch_currents(b, V[f], V[to])[e]; s = V[(f, to)[e]] * np.conj(I)
            r = b[RATE_A]; m = (r / base) ** 2 if r else np.inf
            h.append((abs(I) ** 2 if lim == 2 else s.real ** 2 if lim == 1 else abs(s) ** 2) - m)
    return np.r_[S.real, S.imag], np.array(h)
def rt_cons(rng, k):
    om, c, Ybus, Yf, Yt, opt, il = setup(rng, k)
    x = point(om, rng); lim = opt['OPF_FLOW_LIM']
    f = lambda y: opf_consfcn(y, om, Ybus, Yf, Yt, opt, il)
    h, g, dh, dg = f(x)
    G_, H_ = real_cons(om, c, x, lim, il)
    needclose(g, G_, 'power balance', 1e-9, x=x)
    dn = lambda M: M.toarray() if hasattr(M, 'toarray') else np.asarray(M)
    needclose(dn(dg), cdiff(lambda y: real_cons(om, c, y, lim, il)[0], x), 'equality Jacobian', 1e-5, x=x)
    if len(H_):
        needclose(h, H_, 'flow limits', 1e-9, x=x)
        fin = lambda v: np.where(np.isfinite(v), v, 0)
        D = np.array([[0.]])
        off = np.where(np.isfinite(H_), 0, 1)
        c2 = dict(c); b2 = c['branch'].copy(); b2[:, RATE_A] = 100.; c2['branch'] = b2
        needclose(dn(dh), cdiff(lambda y: real_cons(om, c2, y, lim, il)[1], x), 'inequality Jacobian', 1e-5, x=x)
    else: need(np.size(h) == 0 and (dh is None or dh.shape[1] == 0), 'no flow limits expected')
    return (len(x), len(H_), lim)
RUNTIME = [RT('constraints and Jacobians', rt_cons, 60, 600, ['opf_consfcn'], 'cases of up to 8 buses')]
ASSUMPTIONS = ['all generators of the model are in service (the OPF works on internal data); selected branches are distinct valid branch indices', 'voltage magnitudes are positive']
EXPLANATION = 'constraint values of the real opf_consfcn equal the closed forms of mismatch and flow for any admittance matrices, and the Jacobians equal their derivatives taken in the term algebra'
