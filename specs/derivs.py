"""First and second derivatives: closed forms used as contracts, and lemmas that
the closed forms are the derivatives (by differentiation in the term algebra)."""
from pv import terms as t
from pv import arrays as A
from pv.arrays import SArray, fixaxis
from .net import *

SP = 'sparse'
def vn(V, i): return V.num(i) / t.absv(V.num(i))
def sto(Y): return 'sparse' if Y.storage == 'sparse' else 'matrix'

def spec_dSbus_dV(Ybus, V):
    nb = V.axes[0]
    I = lambda i: A.sum_over(nb, lambda k: Ybus.num(i, k) * V.num(k))
    dVm = SArray([nb, nb], lambda i, j: eq(i, j) * vn(V, i) * t.conj(I(i)) + V.num(i) * t.conj(Ybus.num(i, j) * vn(V, j)), 'c', sto(Ybus))
    dVa = SArray([nb, nb], lambda i, j: t.J * (eq(i, j) * V.num(i) * t.conj(I(i)) - V.num(i) * t.conj(Ybus.num(i, j) * V.num(j))), 'c', sto(Ybus))
    return dVm, dVa

def _ends(branch, nb):
    return (lambda l: row(nb, branch, F_BUS, l)), (lambda l: row(nb, branch, T_BUS, l))

def spec_dSbr_dV(branch, Yf, Yt, V):
    nl, nb = branch.axes[0], V.axes[0]
    out = []; fl = []
    for e, Y in zip(_ends(branch, nb), (Yf, Yt)):
        I = lambda l, Y=Y: A.sum_over(nb, lambda k: Y.num(l, k) * V.num(k))
        out.append(SArray([nl, nb], lambda l, j, e=e, Y=Y, I=I: t.J * (eq(e(l), j) * V.num(j) * t.conj(I(l)) - V.num(e(l)) * t.conj(Y.num(l, j) * V.num(j))), 'c', sto(Y)))
        out.append(SArray([nl, nb], lambda l, j, e=e, Y=Y, I=I: eq(e(l), j) * vn(V, j) * t.conj(I(l)) + V.num(e(l)) * t.conj(Y.num(l, j) * vn(V, j)), 'c', sto(Y)))
        fl.append(SArray([nl], lambda l, e=e, I=I: V.num(e(l)) * t.conj(I(l)), 'c'))
    return tuple(out + fl)

def spec_dIbr_dV(branch, Yf, Yt, V):
    nl, nb = Yf.axes[0], V.axes[0]      # branch is not used
    out = []; fl = []
    for Y in (Yf, Yt):
        out.append(SArray([nl, nb], lambda l, j, Y=Y: t.J * Y.num(l, j) * V.num(j), 'c', sto(Y)))
        out.append(SArray([nl, nb], lambda l, j, Y=Y: Y.num(l, j) * vn(V, j), 'c', sto(Y)))
        fl.append(SArray([nl], lambda l, Y=Y: A.sum_over(nb, lambda k: Y.num(l, k) * V.num(k)), 'c'))
    return tuple(out + fl)

def spec_dAbr_dV(dFf_dVa, dFf_dVm, dFt_dVa, dFt_dVm, Ff, Ft):
    def f(D, F):
        return SArray(D.axes, lambda l, j: 2 * t.real(t.conj(F.num(l)) * D.num(l, j)), 'f', SP)
    return f(dFf_dVa, Ff), f(dFf_dVm, Ff), f(dFt_dVa, Ft), f(dFt_dVm, Ft)

# ---- Hessian of the sesquilinear form  Q = sum_ik M(i,k) V_i conj(V_k)
def hess_form(nb, M, V):
    ab = lambda i: t.absv(V.num(i))
    X = lambda p, q: M(p, q) * V.num(p) * t.conj(V.num(q))
    R = lambda p: A.sum_over(nb, lambda k: X(p, k))
    C = lambda p: A.sum_over(nb, lambda i: X(i, p))
    aa = lambda p, q: X(p, q) + X(q, p) - eq(p, q) * (R(p) + C(p))
    vv = lambda p, q: (X(p, q) + X(q, p)) / ab(p) / ab(q)
    av = lambda p, q: t.J * (X(p, q) - X(q, p) + eq(p, q) * (R(p) - C(p))) / ab(q)
    va = lambda p, q: av(q, p)
    mk = lambda f: SArray([nb, nb], f, 'c', SP)
    return mk(aa), mk(av), mk(va), mk(vv)

def spec_d2Sbus_dV2(Ybus, V, lam):
    nb = V.axes[0]
    return hess_form(nb, lambda i, k: lam.num(i) * t.conj(Ybus.num(i, k)), V)

def spec_d2Sbr_dV2(Cbr, Ybr, V, lam):
    nb, nl = V.axes[0], lam.axes[0]
    return hess_form(nb, lambda i, k: A.sum_over(nl, lambda l: Cbr.num(l, i) * lam.num(l) * t.conj(Ybr.num(l, k))), V)

def spec_d2Ibr_dV2(Ybr, V, lam):
    nb, nl = V.axes[0], lam.axes[0]
    g = lambda j: A.sum_over(nl, lambda l: lam.num(l) * Ybr.num(l, j)) * V.num(j)
    mk = lambda f: SArray([nb, nb], f, 'c', SP)
    aa = mk(lambda p, q: -1 * eq(p, q) * g(p))
    av = mk(lambda p, q: t.J * eq(p, q) * g(p) / t.absv(V.num(p)))
    return aa, av, av, SArray([nb, nb], lambda p, q: t.ZERO, 'f', SP)

def _hess_sq(S4, da, dm, lam):
    nl = lam.axes[0]
    Saa, Sav, Sva, Svv = S4
    o = lambda P, R: lambda p, q: A.sum_over(nl, lambda l: P.num(l, p) * lam.num(l) * t.conj(R.num(l, q)))
    mk = lambda S, f: SArray(S.axes, lambda p, q: 2 * t.real(S.num(p, q) + f(p, q)), 'f', SP)
    return mk(Saa, o(da, da)), mk(Sav, o(da, dm)), mk(Sva, o(dm, da)), mk(Svv, o(dm, dm))

def spec_d2ASbr_dV2(dSa, dSm, S, Cbr, Ybr, V, lam):
    w = SArray(lam.axes, lambda l: t.conj(S.num(l)) * lam.num(l), 'c')
    return _hess_sq(spec_d2Sbr_dV2(Cbr, Ybr, V, w), dSa, dSm, lam)
def spec_d2AIbr_dV2(dIa, dIm, I, Ybr, V, lam):
    w = SArray(lam.axes, lambda l: t.conj(I.num(l)) * lam.num(l), 'c')
    return _hess_sq(spec_d2Ibr_dV2(Ybr, V, w), dIa, dIm, lam)

# ---- symbolic operands
def polarV(S, nb):
    Vm = S.array('Vm', [nb], 'p'); Va = S.array('Va', [nb], 'r')
    return SArray([nb], lambda i: Vm.num(i) * t.expv(t.J * Va.num(i)), 'c')
def sparse_c(S, name, axes, kind='c'): return S.array(name, axes, kind, storage='sparse')
def conn(S, nl, nb, name='e'):
    """connection matrix: one bus per branch"""
    e = lambda l: S.index(name, (l,), nb.dim)
    return SArray([nl, nb], lambda l, i: eq(e(l), i), 'f', 'sparse')

# ---- lemmas: closed forms are derivatives
def lemmas_first():
    """list of (name, term that must vanish identically)"""
    from pv.verify import Sym
    out = []
    S = Sym(); nb = S.dim('nb'); nl = S.dim('nl')
    V = polarV(S, nb); Y = sparse_c(S, 'Y', [nb, nb]); Yf = sparse_c(S, 'Yf', [nl, nb]); Yt = sparse_c(S, 'Yt', [nl, nb])
    br_ = branch_table(S, nl)
    i, j, l = t.iv('i', 'nb'), t.iv('j', 'nb'), t.iv('l', 'nl')
    Sb = V.num(i) * t.conj(A.sum_over(nb, lambda k: Y.num(i, k) * V.num(k)))
    m, a = spec_dSbus_dV(Y, V)
    out.append(('dSbus_dVm is d Sbus/d Vm', m.num(i, j) - t.diff(Sb, 'Vm', (j,))))
    out.append(('dSbus_dVa is d Sbus/d Va', a.num(i, j) - t.diff(Sb, 'Va', (j,))))
    d = spec_dSbr_dV(br_, Yf, Yt, V)
    g = spec_dIbr_dV(br_, Yf, Yt, V)
    for q, nm in ((0, 'f'), (1, 't')):
        for w, vv in ((0, 'Va'), (1, 'Vm')):
            out.append(('dS%s_d%s' % (nm, vv), d[2 * q + w].num(l, j) - t.diff(d[4 + q].num(l), vv, (j,))))
            out.append(('dI%s_d%s' % (nm, vv), g[2 * q + w].num(l, j) - t.diff(g[4 + q].num(l), vv, (j,))))
    ab = spec_dAbr_dV(*d)
    for q, nm in ((0, 'f'), (1, 't')):
        sq = d[4 + q].num(l) * t.conj(d[4 + q].num(l))
        for w, vv in ((0, 'Va'), (1, 'Vm')):
            out.append(('dA%s_d%s is d |S%s|^2/d %s' % (nm, vv, nm, vv), ab[2 * q + w].num(l, j) - t.diff(sq, vv, (j,))))
    return out

def lemmas_second():
    from pv.verify import Sym
    out = []
    S = Sym(); nb = S.dim('nb'); nl = S.dim('nl')
    V = polarV(S, nb); Y = sparse_c(S, 'Y', [nb, nb]); Yb = sparse_c(S, 'Yb', [nl, nb])
    C = conn(S, nl, nb)
    lamb = S.array('lamb', [nb], 'c'); laml = S.array('laml', [nl], 'c'); lamr = S.array('lamr', [nl], 'r')
    i, j, l = t.iv('i', 'nb'), t.iv('j', 'nb'), t.iv('l', 'nl')
    blocks = (('aa', 'Va', 'Va'), ('av', 'Va', 'Vm'), ('va', 'Vm', 'Va'), ('vv', 'Vm', 'Vm'))
    Q1 = A.sum_over(nb, lambda r: lamb.num(r) * V.num(r) * t.conj(A.sum_over(nb, lambda k: Y.num(r, k) * V.num(k))))
    Q2 = A.sum_over(nl, lambda r: laml.num(r) * A.sum_over(nb, lambda p: C.num(r, p) * V.num(p)) * t.conj(A.sum_over(nb, lambda k: Yb.num(r, k) * V.num(k))))
    Q3 = A.sum_over(nl, lambda r: laml.num(r) * A.sum_over(nb, lambda k: Yb.num(r, k) * V.num(k)))
    for nm, Q, H in (('Sbus', Q1, spec_d2Sbus_dV2(Y, V, lamb)), ('Sbr', Q2, spec_d2Sbr_dV2(C, Yb, V, laml)), ('Ibr', Q3, spec_d2Ibr_dV2(Yb, V, laml))):
        for (b, x, y), h in zip(blocks, H):
            out.append(('d2%s_dV2 %s' % (nm, b), h.num(i, j) - t.diff(t.diff(Q, x, (i,)), y, (j,))))
    # squared magnitudes
    e = lambda r: S.index('e', (r,), 'nb')
    Sl = SArray([nl], lambda r: V.num(e(r)) * t.conj(A.sum_over(nb, lambda k: Yb.num(r, k) * V.num(k))), 'c')
    Il = SArray([nl], lambda r: A.sum_over(nb, lambda k: Yb.num(r, k) * V.num(k)), 'c')
    mk = lambda F, x: SArray([nl, nb], lambda r, k: t.diff(F.num(r), x, (k,)), 'c', 'sparse')
    HS = spec_d2ASbr_dV2(mk(Sl, 'Va'), mk(Sl, 'Vm'), Sl, C, Yb, V, lamr)
    HI = spec_d2AIbr_dV2(mk(Il, 'Va'), mk(Il, 'Vm'), Il, Yb, V, lamr)
    for nm, F, H in (('ASbr', Sl, HS), ('AIbr', Il, HI)):
        Q = A.sum_over(nl, lambda r: lamr.num(r) * F.num(r) * t.conj(F.num(r)))
        for (b, x, y), h in zip(blocks, H):
            out.append(('d2%s_dV2 %s' % (nm, b), h.num(i, j) - t.diff(t.diff(Q, x, (i,)), y, (j,))))
    return out
