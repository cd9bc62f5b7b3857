from pv.verify import FunContract, register
from pv.runner import RT, Skip
from pv.arrays import dimaxis, fixaxis
from pv import solve
from .net import *
from . import gen as G
from .gen import need, needclose
import numpy as np
from pypower.pfsoln import pfsoln
EPS = t.lift(float(np.finfo(float).eps))

def mk(nref):
    def case(S):
        nb, ng, nl = S.dim('nb', 1, 4), S.dim('ng', 1, 5), S.dim('nl', 1, 4)
        st = lambda rng, env, *i: rng.choice([-1.0, 0.0, 1.0, 1.0])
        bus = bus_table(S, nb); gen = gen_table(S, ng, cols={GEN_STATUS: ('r', st), 4: ('r', lambda rng, env, *i: rng.choice([0.0, 0.0, -1.0, -0.4])), 3: ('r', lambda rng, env, *i: rng.choice([0.0, 0.0, 1.0, 0.7]))})
        branch = branch_table(S, nl, ncols=17)
        Y = [S.array(n, [a, nb], 'c', storage='sparse') for n, a in (('Ybus', nb), ('Yf', nl), ('Yt', nl))]
        V = S.array('V', [nb], 'c')
        refs = [t.ifun('ref%d' % k, (), 'nb') for k in range(nref)]
        for k in range(nref): S.index('ref%d' % k, (), 'nb', (lambda rng, env, *i, k=k: min(k, env.sizes['nb'] - 1)))
        for a in range(nref):
            for b in range(a): S.pre.append(t.mknot(t.eqi(refs[a], refs[b])))
        ref = SArray([fixaxis(nref)], lambda k: t.mk('idx', refs[k]), 'i')
        for r in refs:      # the reference bus has an in-service generator
            S.pre.append(A.any_over(ng, lambda g: t.mkand(gen.num(g, GEN_STATUS) > 0, A.ixeq(row(nb, gen, GEN_BUS, g), r))))
        e = np.zeros(0, int)
        return [S.scalar('baseMVA', 'p'), bus, gen, branch] + Y + [V, ref, e, e]
    return case

def power_at(Y, V, nb, r, i):
    """V_r times the conjugate of row i of Y times V"""
    return V.num(r) * t.conj(A.sum_over(nb, lambda k: Y.num(i, k) * V.num(k)))

def spec_pfsoln(baseMVA, bus, gen, branch, Ybus, Yf, Yt, V, ref, pv, pq):
    nb, ng, nl = bus.axes[0], gen.axes[0], branch.axes[0]
    base = t.lift(baseMVA)
    # bus voltages
    busn = with_cols(bus, {VM: lambda i: t.absv(V.num(i)), VA: lambda i: t.argv(V.num(i)) * 180 / t.PI})
    # reactive output
    gb = lambda g: row(nb, gen, GEN_BUS, g)
    on = lambda g: gen.num(g, GEN_STATUS) > 0
    at = lambda g, i: t.br(t.mkand(on(g), A.ixeq(gb(g), i)))
    inj = lambda i: power_at(Ybus, V, nb, i, i)
    Qtot = lambda i: t.imag(inj(i)) * base + bus.num(i, QD)
    num = lambda i: A.sum_over(ng, lambda g: at(g, i))
    Qmin = lambda i: A.sum_over(ng, lambda g: at(g, i) * gen.num(g, QMIN))
    Qmax = lambda i: A.sum_over(ng, lambda g: at(g, i) * gen.num(g, QMAX))
    onax = dimaxis(ng.dim, on)
    def share(g):
        i = gb(g)
        eq_ = Qtot(i) / num(i)
        # total at the bus as the sum of the equal parts (the same number)
        tot = A.sum_over(ng, lambda h: at(h, i) * (Qtot(gb(h)) / num(gb(h))))
        prop = gen.num(g, QMIN) + (tot - Qmin(i)) * t.power(Qmax(i) - Qmin(i) + EPS, -1) * (gen.num(g, QMAX) - gen.num(g, QMIN))
        return t.ite(t.eq0(Qmin(i) - Qmax(i)), eq_, prop)
    several = A.decide_hook(A.Size([onax]) > 1)
    q = lambda g: t.br(on(g)) * (share(g) if several else Qtot(gb(g)))
    # real output of the first in-service generator at each reference bus
    pg = {}
    def newp(g):
        p = gen.num(g, PG)
        for k in range(ref.axes[0].n):
            r = A.as_index(ref.entry(k))
            ax = dimaxis(ng.dim, lambda h: t.mkand(on(h), A.ixeq(gb(h), r)))
            first = A.nth(ax, 0)
            others = A.sum_over(ng, lambda h: at(h, r) * t.br(t.mknot(A.ixeq(h, first))) * gen.num(h, PG))
            p = t.ite(A.ixeq(g, first), t.real(inj(r)) * base + bus.num(r, PD) - others, p)
        return p
    genn = with_cols(gen, {QG: q, PG: newp})
    # branch flows
    onb = lambda l: t.br(t.mknot(t.cmp_eq(branch.num(l, BR_STATUS), t.ZERO)))
    sf = lambda l: power_at(Yf, V, nb, row(nb, branch, F_BUS, l), l) * base
    st = lambda l: power_at(Yt, V, nb, row(nb, branch, T_BUS, l), l) * base
    brn = with_cols(branch, {PF: lambda l: onb(l) * t.real(sf(l)), QF: lambda l: onb(l) * t.imag(sf(l)), PT: lambda l: onb(l) * t.real(st(l)), QT: lambda l: onb(l) * t.imag(st(l))})
    return (busn, genn, brn), {1: busn, 2: genn, 3: brn}
CONTRACTS = [register(FunContract(pfsoln, spec_pfsoln, {'one reference': mk(1), 'two references': mk(2)}, modifies=(1, 2, 3), nenv=30))]
# the split conserves the bus total (EPS only guards the division): lemmas over the postcondition
def lemma_split(prop):
    ng, nb = dimaxis('ng'), dimaxis('nb')
    i = t.iv('i', 'nb')
    at = lambda g: t.br(t.pred('on_at_i', (g,)))
    lo = lambda g: t.inp('qmin', (g,)); hi = lambda g: t.inp('qmax', (g,))
    T_ = t.inp('Qtot', ())
    n = A.sum_over(ng, at)
    if not prop:
        return solve.is_zero(A.sum_over(ng, lambda g: at(g) * T_ / n) - T_)
    Lo = A.sum_over(ng, lambda g: at(g) * lo(g)); Hi = A.sum_over(ng, lambda g: at(g) * hi(g))
    d = t.power(Hi - Lo + EPS, -1)
    s = A.sum_over(ng, lambda g: at(g) * (lo(g) + (T_ - Lo) * d * (hi(g) - lo(g))))
    return solve.is_zero(s - (T_ - (T_ - Lo) * EPS * d))
LEMMAS = [('equal shares add up to the bus total', lambda: lemma_split(False)), ('proportional shares add up to the bus total', lambda: lemma_split(True))]

def by_loops(rng, k):
    from pypower.makeYbus import makeYbus
    from pypower.ext2int import ext2int
    if k < len(G.SHIPPED): c = G.renumber(G.shipped(G.SHIPPED[k]))
    else:
        c = G.wide_case(rng, gencols=[21, 25][k % 2])
        g = c['gen']
        if k % 3 == 0:
            z = rng.rand(len(g)) < .5
            g[z, QMIN] = g[z, QMAX]          # single generators with an empty range
        if k % 5 == 0: g[:, QMIN] = g[:, QMAX] = 0
        if k % 7 == 0:
            z = rng.rand(len(g)) < .5
            g[z, QMIN] = 0; g[z, QMAX] = 0
    if c['branch'].shape[1] < 17: c['branch'] = np.c_[c['branch'], rng.randn(c['branch'].shape[0], 17 - c['branch'].shape[1])]
    bus, gen, br = c['bus'], c['gen'], c['branch']
    nb = len(bus); V = G.polarV(rng, nb)
    if k % 9 == 0: V = V * np.exp(1j * rng.uniform(-3, 3))
    base = c['baseMVA']
    on = gen[:, GEN_STATUS] > 0
    cand = sorted(set(gen[on, 0].astype(int)))
    ref = np.array(sorted(rng.choice(cand, min(len(cand), 1 + (k % 4 == 3)), replace=False)))
    Y = makeYbus(base, bus, br)
    b0, g0, br0 = bus.copy(), gen.copy(), br.copy()
    rest = np.setdiff1d(np.arange(nb), ref)
    B, Gn, R = pfsoln(base, bus, gen, br, Y[0], Y[1], Y[2], V, ref, rest[:0], rest)
    need(B.shape == b0.shape and Gn.shape == g0.shape and R.shape == br0.shape, 'shapes changed')
    needclose(B[:, VM], np.abs(V), 'bus magnitudes'); needclose(np.exp(1j * np.deg2rad(B[:, VA])), V / np.abs(V), 'bus angles')
    keepb = [j for j in range(b0.shape[1]) if j not in (VM, VA)]
    need(np.array_equal(B[:, keepb], b0[:, keepb]), 'other bus columns changed')
    Sf, St = G.flows({'branch': br0}, V)
    for col, x in ((PF, Sf.real), (QF, Sf.imag), (PT, St.real), (QT, St.imag)): needclose(R[:, col], x * base, 'branch column %d' % col, branch=br0, V=V)
    keepr = [j for j in range(br0.shape[1]) if j not in (PF, QF, PT, QT)]
    need(np.array_equal(R[:, keepr], br0[:, keepr]), 'other branch columns changed')
    keepg = [j for j in range(g0.shape[1]) if j not in (PG, QG)]
    need(np.array_equal(Gn[:, keepg], g0[:, keepg]), 'other generator columns changed')
    S = G.injections({'bus': b0, 'branch': br0, 'baseMVA': base}, V) * base
    for i in range(nb):
        gs = [g for g in range(len(gen)) if on[g] and int(g0[g, 0]) == i]
        if not gs: continue
        tot = S[i].imag + b0[i, QD]
        needclose(sum(Gn[gs, QG]), tot, 'reactive total at bus %d' % i, 1e-7, gen=g0)
        lo, hi = g0[gs, QMIN], g0[gs, QMAX]
        if (hi == lo).all(): needclose(Gn[gs, QG], tot / len(gs) * np.ones(len(gs)), 'equal reactive split at bus %d' % i, 1e-7, gen=g0)
        elif hi.sum() - lo.sum() > 1e-3: needclose(Gn[gs, QG], lo + (tot - lo.sum()) * (hi - lo) / (hi.sum() - lo.sum()), 'proportional reactive split at bus %d' % i, 1e-7, gen=g0)
        if i in ref:
            needclose(sum(Gn[gs, PG]), S[i].real + b0[i, PD], 'real balance at reference bus %d' % i, 1e-7, gen=g0)
            need((Gn[gs, PG] != g0[gs, PG]).sum() <= 1, 'more than one generator adjusted at reference bus')
        else: need(np.array_equal(Gn[gs, PG], g0[gs, PG]), 'real output changed away from the reference')
    off = ~on
    need(np.array_equal(Gn[off, PG], g0[off, PG]) and (Gn[off, QG] == 0).all(), 'out-of-service generator outputs')
    return (k, nb, len(gen), len(ref))
RUNTIME = [RT('balance by loops', by_loops, 120, 1500, ['pfsoln'], 'networks up to 9 buses and shipped cases, up to two references')]
ASSUMPTIONS = ['every reference bus has an in-service generator; reactive ranges finite; internal numbering']
