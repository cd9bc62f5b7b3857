from pv.verify import FunContract, register
from pv.runner import RT, Skip
from pv import solve
from .net import *
from .derivs import *
from . import gen as G
from .gen import need, needclose
from .c05 import VV, D, cdiff
import numpy as np
from pypower.d2Sbus_dV2 import d2Sbus_dV2
from pypower.d2Sbr_dV2 import d2Sbr_dV2
from pypower.d2Ibr_dV2 import d2Ibr_dV2
from pypower.d2ASbr_dV2 import d2ASbr_dV2
from pypower.d2AIbr_dV2 import d2AIbr_dV2
def c4(S):
    nb, nl = D(S); return [sparse_c(S, 'Y', [nb, nb]), VV(S, nb), S.array('lam', [nb], 'c')]
def c5(S):
    nb, nl = D(S); return [conn(S, nl, nb), sparse_c(S, 'Y', [nl, nb]), VV(S, nb), S.array('lam', [nl], 'c')]
def c6(S):
    nb, nl = D(S); return [sparse_c(S, 'Y', [nl, nb]), VV(S, nb), S.array('lam', [nl], 'c')]
def c7(S):
    nb, nl = D(S); return [sparse_c(S, 'Da', [nl, nb]), sparse_c(S, 'Dm', [nl, nb]), S.array('F', [nl], 'c'), conn(S, nl, nb), sparse_c(S, 'Y', [nl, nb]), VV(S, nb), S.array('lam', [nl], 'r')]
def c8(S):
    a = c7(S); return a[:3] + a[4:]
CONTRACTS = [
    register(FunContract(d2Sbus_dV2, spec_d2Sbus_dV2, {'any': c4}, requires=lambda Y, V, lam: nonempty(V.axes[0]))),
    register(FunContract(d2Sbr_dV2, spec_d2Sbr_dV2, {'any': c5}, requires=lambda C, Y, V, lam: nonempty(V.axes[0], lam.axes[0]))),
    register(FunContract(d2Ibr_dV2, spec_d2Ibr_dV2, {'any': c6}, requires=lambda Y, V, lam: nonempty(V.axes[0]))),
    register(FunContract(d2ASbr_dV2, spec_d2ASbr_dV2, {'any': c7}, requires=lambda Da, Dm, F, C, Y, V, lam: nonempty(V.axes[0], lam.axes[0]), callees=[('pypower.d2Sbr_dV2', 'd2Sbr_dV2')])),
    register(FunContract(d2AIbr_dV2, spec_d2AIbr_dV2, {'any': c8}, requires=lambda Da, Dm, F, Y, V, lam: nonempty(V.axes[0], lam.axes[0]), callees=[('pypower.d2Ibr_dV2', 'd2Ibr_dV2')])),
]
LEMMAS = [(nm, (lambda x=x: solve.is_zero(x))) for nm, x in lemmas_second()]

def numeric(rng, k):
    from scipy.sparse import csr_matrix as sp
    nb = rng.randint(2, 6); nl = rng.randint(1, 6)
    Y = rng.randn(nb, nb) + 1j * rng.randn(nb, nb); Yb = rng.randn(nl, nb) + 1j * rng.randn(nl, nb)
    e = rng.randint(0, nb, nl); C = sp((np.ones(nl), (np.arange(nl), e)), (nl, nb))
    va = rng.uniform(-3, 3, nb); vm = G.mags(rng, nb, 0.6, 1.4)
    V = lambda a, m: m * np.exp(1j * a)
    V0 = V(va, vm)
    lb = rng.randn(nb); ll = rng.randn(nl)
    x0 = np.r_[va, vm]
    def hess(Q):
        n = 2 * nb; H = np.zeros((n, n), complex); h = 1e-4
        I = np.eye(n) * h
        for i in range(n):
            for j in range(n):
                H[i, j] = (Q(x0 + I[i] + I[j]) - Q(x0 + I[i] - I[j]) - Q(x0 - I[i] + I[j]) + Q(x0 - I[i] - I[j])) / (4 * h * h)
        return H
    v = lambda x: V(x[:nb], x[nb:])
    Sl = lambda x: v(x)[e] * np.conj(Yb @ v(x)); Il = lambda x: Yb @ v(x)
    def cmp(B, Q, nm):
        H = hess(Q)
        aa, av, va_, vv = [np.asarray(b.toarray() if hasattr(b, 'toarray') else b) for b in B]
        needclose(np.vstack([np.hstack([aa, av]), np.hstack([va_, vv])]), H, nm, 2e-5, V=V0)
    cmp(d2Sbus_dV2(sp(Y), V0, lb), lambda x: lb @ (v(x) * np.conj(Y @ v(x))), 'd2Sbus_dV2')
    cmp(d2Sbr_dV2(C, sp(Yb), V0, ll), lambda x: ll @ Sl(x), 'd2Sbr_dV2')
    cmp(d2Ibr_dV2(sp(Yb), V0, ll), lambda x: ll @ Il(x), 'd2Ibr_dV2')
    def fd(F):
        J = cdiff(F, x0); return sp(J[:, :nb]), sp(J[:, nb:])
    a, m = fd(Sl); cmp(d2ASbr_dV2(a, m, Sl(x0), C, sp(Yb), V0, ll), lambda x: ll @ np.abs(Sl(x)) ** 2, 'd2ASbr_dV2')
    a, m = fd(Il); cmp(d2AIbr_dV2(a, m, Il(x0), sp(Yb), V0, ll), lambda x: ll @ np.abs(Il(x)) ** 2, 'd2AIbr_dV2')
    return (nb, nl)
RUNTIME = [RT('second difference quotients', numeric, 40, 300, ['d2Sbus_dV2', 'd2Sbr_dV2', 'd2Ibr_dV2', 'd2ASbr_dV2', 'd2AIbr_dV2'], 'random matrices up to 5 buses')]
ASSUMPTIONS = ['voltages are nonzero', 'connection matrices have one bus per branch']
