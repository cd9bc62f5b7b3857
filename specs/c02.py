from pv.verify import FunContract, register
from pv.runner import RT, Skip
from .net import *
from . import gen as G
from .gen import need, needclose
import numpy as np
from pypower.makeSbus import makeSbus

def cS(S):
    nb = S.dim('nb'); ng = S.dim('ng')
    return [S.scalar('baseMVA', 'p'), bus_table(S, nb), gen_table(S, ng, cols={GEN_STATUS: ('r', lambda rng, env, *i: rng.choice([-1.0, 0.0, 1.0, 1.0, 2.0]))})]
CONTRACTS = [register(FunContract(makeSbus, spec_makeSbus, {'any': cS}))]
SBUS = CONTRACTS[0]
def by_loops(rng, k):
    c = G.renumber(G.shipped(G.SHIPPED[k])) if k < len(G.SHIPPED) else G.wide_case(rng, gencols=[21, 25][k % 2])
    if k % 4 == 3: c['gen'][:, GEN_STATUS] = rng.choice([-1, 0, 1, 2], c['gen'].shape[0])
    keep = {x: c[x].copy() for x in ('bus', 'gen')}
    S = makeSbus(c['baseMVA'], c['bus'], c['gen'])
    for x in keep: need(np.array_equal(keep[x], c[x]), 'makeSbus modifies %s' % x, case=keep)
    needclose(S, G.scheduled(c), 'net injection is not generation minus load', case=c)
    return (k, c['bus'].shape[0], c['gen'].shape[0])
RUNTIME = [RT('injections by loops', by_loops, 150, 1500, ['makeSbus'], 'networks up to 9 buses and shipped cases')]
ASSUMPTIONS = ['bus numbers are the row positions (internal numbering)']
