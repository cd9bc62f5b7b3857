from pv.verify import FunContract, register
from pv.runner import RT, Skip
from .net import *
from . import gen as G
from .gen import need, needclose
from .c01 import cY
import numpy as np
from pypower.makeBdc import makeBdc
CONTRACTS = [register(FunContract(makeBdc, spec_makeBdc, {'any': cY}))]
def dcflow(b, tf, tt):
    if b[BR_STATUS] <= 0: return 0.0
    a = b[TAP] if b[TAP] != 0 else 1.0
    return (tf - tt - np.deg2rad(b[SHIFT])) / (b[BR_X] * a)
def by_loops(rng, k):
    c = G.renumber(G.shipped(G.SHIPPED[k])) if k < len(G.SHIPPED) else G.wide_case(rng, brcols=[13, 17][k % 2])
    nb = c['bus'].shape[0]
    keep = {x: c[x].copy() for x in ('bus', 'branch')}
    Bbus, Bf, Pbi, Pfi = makeBdc(c['baseMVA'], c['bus'], c['branch'])
    for x in keep: need(np.array_equal(keep[x], c[x]), 'makeBdc modifies %s' % x, case=keep)
    th = rng.uniform(-1, 1, nb)
    F = np.array([dcflow(b, th[int(b[F_BUS])], th[int(b[T_BUS])]) for b in c['branch']])
    P = np.zeros(nb)
    for b, f in zip(c['branch'], F): P[int(b[F_BUS])] += f; P[int(b[T_BUS])] -= f
    needclose(Bf * th + Pfi, F, 'branch flow', case=c, theta=th)
    needclose(Bbus * th + Pbi, P, 'bus injection', case=c, theta=th)
    z = np.array([dcflow(b, 0, 0) for b in c['branch']])
    needclose(Pfi, z, 'phase-shift flow terms', case=c)
    return (k, nb)
RUNTIME = [RT('linearised flows by loops', by_loops, 150, 1500, ['makeBdc'], 'networks up to 9 buses and shipped cases')]
ASSUMPTIONS = ['bus numbers are the row positions (internal numbering)', 'branch status is 0 or 1; reactances nonzero']
