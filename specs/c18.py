from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from .opfnet import *
from . import gen as G, c05, c06, c15, c17
from .derivs import *
from .gen import need, needclose
import numpy as np
from pypower.opf_hessfcn import opf_hessfcn
from pypower.opf_costfcn import opf_costfcn
from pypower.opf_consfcn import opf_consfcn

W = {}
def args(lim, sub=False, mult=True, **kw):
    def f(S):
        o = opf(S, on=True, **kw); W['o'] = o
        if sub:
            o.il_ax = S.dim('nl2', 1, 3); S.ifs['il'] = ('nl', None)
            il = SArray([o.il_ax], lambda k: t.mk('idx', t.ifun('il', (k,), 'nl')), 'i')
            o.il = lambda k: t.ifun('il', (k,), 'nl')
        else: o.il_ax = o.nl; o.il = lambda k: k; il = None
        Y = [sparse_c(S, n, [ax, o.nb]) for n, ax in (('Ybus', o.nb), ('Yf', o.il_ax), ('Yt', o.il_ax))]
        o.Y = Y; o.lim = lim
        for n in ('lamP', 'lamQ', 'muF', 'muT'): S.samplers[n] = ('r', None)
        o.lam = SArray([cataxis([o.nb, o.nb])], lambda ix: t.inp(('lamP', 'lamQ')[ix[0]], (ix[1],)), 'f')
        o.mu = SArray([cataxis([o.il_ax, o.il_ax])], lambda ix: t.inp(('muF', 'muT')[ix[0]], (ix[1],)), 'f')
        o.mult = S.scalar('cost_mult') if mult else t.ONE
        a = [o.x, {'eqnonlin': o.lam, 'ineqnonlin': o.mu}, o.om] + Y + [{'OPF_FLOW_LIM': lim}]
        if sub or mult: a.append(il)
        if mult: a.append(o.mult)
        return a
    return f
def lagrangian(o):
    """cost multiplier times objective plus multiplier-weighted constraints"""
    eqs = A.sum_over(o.nb, lambda i: o.lam.num((0, i)) * t.real(c17.mismatch(o, i)) + o.lam.num((1, i)) * t.imag(c17.mismatch(o, i)))
    ine = A.sum_over(o.il_ax, lambda l: o.mu.num((0, l)) * c17.flow2(o, 0, l) + o.mu.num((1, l)) * c17.flow2(o, 1, l))
    return o.mult * objective(o) + eqs + ine
def post(out, args_, snap, ghost, it):
    o = W['o']
    H = snapshot(out); L = lagrangian(o)
    return [('one row and column per variable', lambda: H.ndim == 2 and all(A.match_axes(a, o.xa) is None for a in H.axes)),
            ('Hessian of the Lagrangian', Claim([o.xa, o.xa], lambda i, j: H.num(i, j) - grad(o, grad(o, L, i), j)))]
CASES = {}
for lim, nm in ((0, 'apparent power'), (1, 'real power'), (2, 'current')):
    for sub in (0, 1):
        CASES['%s, %s' % (nm, 'selected branches' if sub else 'all branches')] = args(lim, bool(sub), q=bool(sub), user=False, mult=bool((lim + sub) % 2))
CASES['user costs'] = args(0, False, user=True, y=False, q=True, model=(2,))
CASES['user costs, user variables, no dead zone'] = args(2, True, user=True, y=False, kk=False, model=(2,))
cHess = register(FunContract(opf_hessfcn, None, CASES, post=post, callees=[c05.CONTRACTS[1], c05.CONTRACTS[2]] + [c06.CONTRACTS[0], c06.CONTRACTS[3], c06.CONTRACTS[4], c15.cPoly], modifies=(2,)))
CONTRACTS = [cHess]

# ---- run time ------------------------------------------------------------------------
def rt_hess(rng, k):
    om, c, Ybus, Yf, Yt, opt, il = c17.setup(rng, k, q=k % 4 > 1, user=k % 2 == 0)
    x = point(om, rng)
    nb = c['bus'].shape[0]; n2 = c['branch'].shape[0] if il is None else len(il)
    lam = rng.randn(2 * nb); mu = rng.uniform(0, 2, 2 * n2); cm = rng.uniform(.1, 3) if k % 3 else 1.0
    H = opf_hessfcn(x, {'eqnonlin': lam, 'ineqnonlin': mu}, om, Ybus, Yf, Yt, opt, il, cm) if k % 3 else opf_hessfcn(x, {'eqnonlin': lam, 'ineqnonlin': mu}, om, Ybus, Yf, Yt, opt, il)
    def gradL(y):
        h, g, dh, dg = opf_consfcn(y, om, Ybus, Yf, Yt, opt, il)
        r = cm * opf_costfcn(y, om)[1] + dg * lam
        return r + dh * mu if n2 else r
    needclose(H.toarray(), cdiff(gradL, x), 'Hessian of the Lagrangian', 2e-4, x=x, lam=lam, mu=mu)
    return (len(x), n2, opt['OPF_FLOW_LIM'])
RUNTIME = [RT('difference quotients of the Lagrangian gradient', rt_hess, 60, 600, ['opf_hessfcn'], 'cases of up to 8 buses')]
ASSUMPTIONS = c17.ASSUMPTIONS + ['the user cost matrix H is symmetric, the point is not on the edge of a dead zone', 'cost rows of up to %d coefficients (every number of generators, cost rows, variables)' % NC]
EXPLANATION = 'the matrix returned by the real opf_hessfcn equals the second derivative, taken in the term algebra, of multiplier-weighted cost and constraints for arbitrary admittance matrices, multipliers and points'
LEVEL = 'other'
