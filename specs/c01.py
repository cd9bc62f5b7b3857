from pv.verify import FunContract, register
from pv.runner import RT, Skip
from .net import *
from . import gen as G
from .gen import need, needclose
import numpy as np
from pypower.makeYbus import makeYbus

def cY(S):
    nb = S.dim('nb'); nl = S.dim('nl')
    S.nonempty(nb)
    return [S.scalar('baseMVA', 'p'), bus_table(S, nb), branch_table(S, nl)]
CONTRACTS = [register(FunContract(makeYbus, spec_makeYbus, {'any': cY}))]
YBUS = CONTRACTS[0]

def loop_model(rng, k):
    """the matrices reproduce the pi-model currents, summed branch by branch"""
    if k < len(G.SHIPPED):
        from pypower.ext2int import ext2int
        from pypower.loadcase import loadcase
        c = G.renumber(G.shipped(G.SHIPPED[k]))
    else: c = G.wide_case(rng, brcols=[13, 17, 21][k % 3])
    nb = c['bus'].shape[0]
    keep = {x: c[x].copy() for x in ('bus', 'branch')}
    Ybus, Yf, Yt = makeYbus(c['baseMVA'], c['bus'], c['branch'])
    for x in keep: need(np.array_equal(keep[x], c[x]), 'makeYbus modifies %s' % x, case=keep)
    V = G.polarV(rng, nb)
    I = [G.branch_currents(b, V[int(b[F_BUS])], V[int(b[T_BUS])]) for b in c['branch']]
    needclose(Yf * V, np.array([x[0] for x in I]), 'Yf*V is not the from-end currents', case=c, V=V)
    needclose(Yt * V, np.array([x[1] for x in I]), 'Yt*V is not the to-end currents', case=c, V=V)
    needclose(V * np.conj(Ybus * V), G.injections(c, V), 'Ybus*V is not the sum of branch and shunt currents', case=c, V=V)
    return (k, nb, c['branch'].shape[0])
RUNTIME = [RT('pi-model currents by loops', loop_model, 150, 1500, ['makeYbus'], 'networks up to 9 buses and shipped cases')]
ASSUMPTIONS = ['bus numbers are the row positions (internal numbering)', 'branch status is 0 or 1', 'branch impedances and taps where inverted are nonzero']
