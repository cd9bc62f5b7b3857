"""Symbolic network data and the index-notation specifications of the network model."""
from pv import terms as t
from pv import arrays as A
from pv.arrays import SArray, fixaxis, dimaxis
from pypower.idx_bus import *
from pypower.idx_gen import *
from pypower.idx_brch import *
from pypower import idx_bus, idx_gen, idx_brch

def zs(p=0.3, lo=0.8, hi=1.2):
    return lambda rng, env, *ix: 0.0 if rng.random() < p else rng.uniform(lo, hi)

def bus_table(S, nb, ncols=13, name='bus', **over):
    cols = {0: 'rownum', 1: ('enum', (1, 2, 3, 4)), 7: 'p', 9: 'p'}
    cols.update(over.get('cols', {}))
    return S.table(name, nb, ncols, cols)

def gen_table(S, ng, nbdim='nb', ncols=21, name='gen', cols=None):
    c = {0: ('index', nbdim), 7: ('enum', (0, 1)), 6: 'p'}
    c.update(cols or {})
    return S.table(name, ng, ncols, c)

def branch_table(S, nl, nbdim='nb', ncols=13, name='branch', cols=None):
    c = {0: ('index', nbdim), 1: ('index', nbdim), 8: ('r', zs()), 10: ('enum', (0, 1)), 9: ('r', lambda rng, env, *i: 0.0 if rng.random() < .5 else rng.uniform(-40, 40))}
    c.update(cols or {})
    return S.table(name, nl, ncols, c)

def row(ax, arr, col, i):
    """index value in ax of the index stored in arr[i, col]"""
    return A.resolve(A.as_index(arr.entry(i, col)), ax)

def br(c): return t.br(c)
def eq(a, b): return t.br(A.ixeq(a, b))
def isnz(x): return t.ascond(x)

# ---- branch model: definition of the pi-model with ideal transformer at the from end
def ys(branch, l):
    """series admittance, zero when out of service"""
    return t.mul(branch.num(l, BR_STATUS), t.power(branch.num(l, BR_R) + t.J * branch.num(l, BR_X), -1))
def tapmag(branch, l):
    x = branch.num(l, TAP)
    return t.ite(isnz(x), x, t.ONE)
def ctap(branch, l):
    return tapmag(branch, l) * t.expv(t.J * branch.num(l, SHIFT) * t.PI / 180)
def charging(branch, l):
    return branch.num(l, BR_STATUS) * branch.num(l, BR_B)
def ytt(branch, l): return ys(branch, l) + t.J * charging(branch, l) * t.HALF
def yff(branch, l): return ytt(branch, l) * t.power(tapmag(branch, l), -2)
def yft(branch, l): return t.mul(-1, ys(branch, l), t.power(t.conj(ctap(branch, l)), -1))
def ytf(branch, l): return t.mul(-1, ys(branch, l), t.power(ctap(branch, l), -1))

def spec_makeYbus(baseMVA, bus, branch):
    nb, nl = bus.axes[0], branch.axes[0]
    f = lambda l: row(nb, branch, F_BUS, l)
    to = lambda l: row(nb, branch, T_BUS, l)
    Yf = SArray([nl, nb], lambda l, i: eq(f(l), i) * yff(branch, l) + eq(to(l), i) * yft(branch, l), 'c', 'sparse')
    Yt = SArray([nl, nb], lambda l, i: eq(f(l), i) * ytf(branch, l) + eq(to(l), i) * ytt(branch, l), 'c', 'sparse')
    def yb(i, j):
        s = A.sum_over(nl, lambda l: eq(f(l), i) * (eq(f(l), j) * yff(branch, l) + eq(to(l), j) * yft(branch, l)) +
                       eq(to(l), i) * (eq(f(l), j) * ytf(branch, l) + eq(to(l), j) * ytt(branch, l)))
        return s + eq(i, j) * (bus.num(i, GS) + t.J * bus.num(i, BS)) / t.lift(baseMVA)
    Ybus = SArray([nb, nb], yb, 'c', 'sparse')
    return Ybus, Yf, Yt

def spec_makeSbus(baseMVA, bus, gen):
    nb, ng = bus.axes[0], gen.axes[0]
    def s(i):
        g = A.sum_over(ng, lambda k: br(gen.num(k, GEN_STATUS) > 0) * eq(row(nb, gen, GEN_BUS, k), i) * (gen.num(k, PG) + t.J * gen.num(k, QG)))
        return (g - bus.num(i, PD) - t.J * bus.num(i, QD)) / t.lift(baseMVA)
    return SArray([nb], s, 'c')

def bser(branch, l): return branch.num(l, BR_STATUS) / branch.num(l, BR_X) / tapmag(branch, l)
def spec_makeBdc(baseMVA, bus, branch):
    nb, nl = bus.axes[0], branch.axes[0]
    f = lambda l: row(nb, branch, F_BUS, l)
    to = lambda l: row(nb, branch, T_BUS, l)
    inc = lambda l, i: eq(f(l), i) - eq(to(l), i)
    Bf = SArray([nl, nb], lambda l, i: bser(branch, l) * inc(l, i), 'f', 'sparse')
    Bbus = SArray([nb, nb], lambda i, j: A.sum_over(nl, lambda l: bser(branch, l) * inc(l, i) * inc(l, j)), 'f', 'sparse')
    pf = lambda l: t.mul(-1, bser(branch, l), branch.num(l, SHIFT), t.PI / 180)
    Pfinj = SArray([nl], pf, 'f')
    Pbusinj = SArray([nb], lambda i: A.sum_over(nl, lambda l: inc(l, i) * pf(l)), 'f')
    return Bbus, Bf, Pbusinj, Pfinj

def with_cols(a, cols):
    """copy of a with some columns replaced"""
    g = a.fn
    return SArray(a.axes, lambda i, j: t.lift(cols[j](i)) if j in cols else g(i, j), a.kind)

def spec_makeB(baseMVA, bus, branch, alg):
    zero = lambda i: t.ZERO
    b1 = {BR_B: zero, TAP: lambda i: t.ONE}
    if alg == 2: b1[BR_R] = zero
    Y1 = spec_makeYbus(baseMVA, with_cols(bus, {BS: zero}), with_cols(branch, b1))[0]
    b2 = {SHIFT: zero}
    if alg == 3: b2[BR_R] = zero
    Y2 = spec_makeYbus(baseMVA, bus, with_cols(branch, b2))[0]
    neg = lambda Y: SArray(Y.axes, lambda i, j: t.mul(-1, t.imag(Y.num(i, j))), 'f', 'sparse')
    return neg(Y1), neg(Y2)

def nonempty(*axes): return [A.any_over(a, lambda i: t.TRUE) for a in axes]

def ext_busnum(S, name, NUM, perm):
    """arbitrary distinct external bus numbers 0 .. NUM-1; NUM ends at the largest of them"""
    t.FACTS.injective.add(name); t.FACTS.tight.add(name)
    S.dim(NUM, 6, 9)
    def smp(rng, env, i):
        if perm not in env.vals:
            import random
            r = random.Random(env.seed * 7 + 1); n = env.sizes[NUM]; nb = env.sizes['nb']
            p = r.sample(range(n - 1), nb - 1) + [n - 1]; r.shuffle(p); env.vals[perm] = p
        return env.vals[perm][i]
    S.ifs[name] = (NUM, smp)
    return lambda i: t.mk('idx', t.ifun(name, (i,), NUM))
