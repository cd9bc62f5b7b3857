from pv.verify import FunContract, register
from pv.runner import RT, Skip
from pv.arrays import dimaxis
from .net import *
from . import gen as G
from .gen import need
import numpy as np
from pypower.bustypes import bustypes
from pypower.idx_bus import *

def cT(S):
    nb = S.dim('nb', 1, 5); ng = S.dim('ng', 1, 5)
    return [bus_table(S, nb, cols={1: ('enum', (1, 2, 3), None)}), gen_table(S, ng, cols={GEN_STATUS: ('r', lambda rng, env, *i: rng.choice([-1.0, 0.0, 0.0, 1.0]))})]
def masked(nb, cond):
    ax = dimaxis(nb.dim, cond)
    return SArray([ax], lambda i: t.mk('idx', i), 'i'), ax
def spec_bustypes(bus, gen):
    nb, ng = bus.axes[0], gen.axes[0]
    on = lambda i: A.any_over(ng, lambda g: t.mkand(gen.num(g, GEN_STATUS) > 0, A.ixeq(row(nb, gen, GEN_BUS, g), i)))
    typ = lambda i, k: t.cmp_eq(bus.num(i, BUS_TYPE), t.q(k))
    isref = lambda i: t.mkand(typ(i, REF), on(i)); ispv = lambda i: t.mkand(typ(i, PV), on(i))
    pq, _ = masked(nb, lambda i: t.mkand(t.mknot(isref(i)), t.mknot(ispv(i))))
    if A.decide_hook(A.any_over(nb, isref)):
        return masked(nb, isref)[0], masked(nb, ispv)[0], pq
    pvall, ax = masked(nb, ispv)
    first = A.nth(ax, 0)
    ref = SArray([A.fixaxis(1)], lambda k: t.mk('idx', first), 'i')
    return ref, masked(nb, lambda i: t.mkand(ispv(i), t.mknot(t.eqi(i, first))))[0], pq
# without any in-service generator at a reference or voltage-controlled bus there is no reference to name
def raises(val, path): return isinstance(val, IndexError)
CONTRACTS = [register(FunContract(bustypes, spec_bustypes, {'any': cT}, may_raise=raises, nenv=20))]

def by_loops(rng, k):
    nb = rng.randint(1, 12); ng = rng.randint(1, 14)
    bus = np.zeros((nb, 13)); bus[:, BUS_I] = np.arange(nb); bus[:, BUS_TYPE] = rng.choice([1, 2, 3], nb, p=[.35, .4, .25])
    gen = np.zeros((ng, 21)); gen[:, 0] = rng.randint(0, nb, ng); gen[:, 7] = rng.choice([-1, 0, 1, 1, 2], ng)
    if k % 5 == 4:
        c = G.renumber(G.shipped(G.SHIPPED[(k // 5) % len(G.SHIPPED)])); bus, gen = c['bus'], c['gen']
        if k % 2: gen[rng.rand(len(gen)) < .5, 7] = 0
    b0, g0 = bus.copy(), gen.copy()
    on = [any(g[7] > 0 and int(g[0]) == i for g in gen) for i in range(len(bus))]
    ref = [i for i in range(len(bus)) if bus[i, 1] == 3 and on[i]]; pv = [i for i in range(len(bus)) if bus[i, 1] == 2 and on[i]]
    pq = [i for i in range(len(bus)) if i not in ref and i not in pv]
    if not ref and not pv: raise Skip()
    if not ref: ref, pv = pv[:1], pv[1:]
    r, v, q = bustypes(bus, gen)
    need((b0 == bus).all() and (g0 == gen).all(), 'bustypes modifies its input')
    for n, x, y in (('ref', r, ref), ('pv', v, pv), ('pq', q, pq)):
        x = np.asarray(x)
        need(x.ndim == 1 and x.dtype.kind == 'i' and list(x) == y, '%s list is %s, expected %s' % (n, x, y), bus=bus, gen=gen)
    return (len(ref), len(pv), len(pq))
RUNTIME = [RT('classification by loops', by_loops, 150, 2000, ['bustypes'], 'tables up to 12 buses and 14 generators, shipped cases')]
ASSUMPTIONS = ['bus types 1, 2, 3; internal numbering']
