from pv.verify import FunContract, register
from pv.runner import RT, Skip
from .net import *
from . import gen as G
from .gen import need, needclose
from .c01 import cY, YBUS
import numpy as np
from pypower.makeB import makeB
CONTRACTS = [YBUS] + [FunContract(makeB, spec_makeB, {'alg%d' % a: (lambda S, a=a: cY(S) + [a]) for a in (1, 2, 3)}, callees=[YBUS.key])]
def by_loops(rng, k):
    c = G.renumber(G.shipped(G.SHIPPED[k])) if k < len(G.SHIPPED) else G.wide_case(rng, brcols=[13, 17][k % 2])
    nb = c['bus'].shape[0]; alg = [2, 3][k % 2]
    keep = {x: c[x].copy() for x in ('bus', 'branch')}
    Bp, Bpp = makeB(c['baseMVA'], c['bus'], c['branch'], alg)
    for x in keep: need(np.array_equal(keep[x], c[x]), 'makeB modifies %s' % x, case=keep)
    def Y(bus, branch):
        M = np.zeros((nb, nb), complex)
        for j in range(nb):
            e = np.zeros(nb, complex); e[j] = 1
            for b in branch:
                f, to = int(b[F_BUS]), int(b[T_BUS])
                If, It = G.branch_currents(b, e[f], e[to])
                M[f, j] += If; M[to, j] += It
            M[j, j] += complex(bus[j, GS], bus[j, BS]) / c['baseMVA']
        return M
    b1 = c['branch'].copy(); b1[:, BR_B] = 0; b1[:, TAP] = 1
    if alg == 2: b1[:, BR_R] = 0
    u1 = c['bus'].copy(); u1[:, BS] = 0
    b2 = c['branch'].copy(); b2[:, SHIFT] = 0
    if alg == 3: b2[:, BR_R] = 0
    needclose(Bp, -Y(u1, b1).imag, "B' (alg %d)" % alg, case=c)
    needclose(Bpp, -Y(c['bus'], b2).imag, "B'' (alg %d)" % alg, case=c)
    return (k, nb, alg)
RUNTIME = [RT('simplified admittances by loops', by_loops, 120, 1200, ['makeB', 'makeYbus'], 'networks up to 9 buses and shipped cases')]
ASSUMPTIONS = ['bus numbers are the row positions (internal numbering)', 'branch status is 0 or 1; impedances nonzero after the simplification']
