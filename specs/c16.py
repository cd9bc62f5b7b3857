from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from .opfnet import *
from . import gen as G, c15
from .gen import need, needclose
import numpy as np
from pypower.opf_costfcn import opf_costfcn

W = {}
def args(hess, **kw):
    def f(S):
        o = opf(S, **kw); W['o'] = o
        return [o.x, o.om] + ([True] if hess else [])
    return f
def post(out, args_, snap, ghost, it):
    o = W['o']
    hess = len(args_) > 2
    if not isinstance(out, tuple) or len(out) != (3 if hess else 2): return [('returns value, gradient%s' % (', Hessian' if hess else ''), lambda: False)]
    f0 = objective(o)
    f, df = out[0], snapshot(out[1])
    cl = [('objective value', Claim([], lambda: t.lift(f) - f0)),
          ('gradient has one entry per variable', lambda: df.ndim == 1 and A.match_axes(df.axes[0], o.xa) is None),
          ('gradient', Claim([o.xa], lambda i: df.num(i) - grad(o, f0, i)))]
    if hess:
        d2 = snapshot(out[2])
        cl += [('Hessian is square', lambda: d2.ndim == 2 and all(A.match_axes(a, o.xa) is None for a in d2.axes)),
               ('Hessian', Claim([o.xa, o.xa], lambda i, j: d2.num(i, j) - grad(o, grad(o, f0, i), j)))]
    return cl
CASES = {}
for nm, kw in (('polynomial P', dict(y=False, z=False, user=False, model=(2,))), ('mixed P and Q, y', dict(z=False, user=False, q=True)), ('mixed P, y, user variables and costs', dict()),
               ('user costs without dead zone', dict(y=False, kk=False, model=(2,)))):
    CASES[nm] = args(False, **kw); CASES[nm + ' with Hessian'] = args(True, **kw)
cCost = register(FunContract(opf_costfcn, None, CASES, post=post, callees=[c15.cPoly, c15.CONTRACTS[1]]))
CONTRACTS = [cCost]

# ---- run time ----------------------------------------------------------------------
def rt_cost(rng, k):
    kinds = [('poly', 'pwl'), ('poly',), ('pwl',)][k % 3]
    om, c = real_om(rng, kinds, q=bool(k % 2), user=k % 4 != 3, nz=k % 3 == 1 and 2 or 0)
    x = point(om, rng); x0 = x.copy()
    f, df, d2f = opf_costfcn(x, om, True)
    need(np.array_equal(x, x0), 'the point is modified')
    f2, df2 = opf_costfcn(x, om)
    need(f2 == f and np.array_equal(df, df2), 'value or gradient depends on whether the Hessian is requested')
    needclose(f, real_objective(om, x), 'objective', 1e-8, x=x)
    needclose(df, cdiff(lambda y: real_objective(om, y), x), 'gradient', 2e-4, x=x)
    needclose(d2f.toarray(), cdiff(lambda y: opf_costfcn(y, om)[1], x), 'Hessian', 2e-4, x=x)
    return (len(x), kinds, k % 4)
RUNTIME = [RT('objective, gradient and Hessian', rt_cost, 60, 600, ['opf_costfcn'], 'cases of up to 8 buses, 4 user cost rows')]
ASSUMPTIONS = ['the user cost matrix H is symmetric, dead zones are nonnegative and N has a nonzero entry when user costs are present',
               'the point is not on the edge of a dead zone (the objective is not differentiable there)',
               'cost rows of up to %d coefficients (every number of generators, cost rows, variables)' % NC]
EXPLANATION = 'value, gradient and Hessian of the real opf_costfcn equal the documented objective and its first and second derivatives, taken in the term algebra, at every point'
LEVEL = 'other'
