from pv.verify import FunContract, register
from pv.runner import RT, Skip
from pv import solve
from .net import *
from .derivs import *
from . import gen as G
from .gen import need, needclose
import numpy as np
from pypower.dSbus_dV import dSbus_dV
from pypower.dSbr_dV import dSbr_dV
from pypower.dIbr_dV import dIbr_dV
from pypower.dAbr_dV import dAbr_dV
def D(S): return S.dim('nb'), S.dim('nl')
def VV(S, nb): return S.array('V', [nb], 'c')
def c1(S, st='sparse'):
    nb, nl = D(S); return [S.array('Y', [nb, nb], 'c', storage=st), VV(S, nb)]
def c2(S, st='sparse'):
    nb, nl = D(S); return [branch_table(S, nl), S.array('Yf', [nl, nb], 'c', storage=st), S.array('Yt', [nl, nb], 'c', storage=st), VV(S, nb)]
def c3(S):
    nb, nl = D(S); return [sparse_c(S, n, [nl, nb]) for n in ('A', 'B', 'C', 'D')] + [S.array('Ff', [nl], 'c'), S.array('Ft', [nl], 'c')]
CONTRACTS = [
    register(FunContract(dSbus_dV, spec_dSbus_dV, {'sparse': c1, 'dense': lambda S: c1(S, 'matrix')}, requires=lambda Y, V: nonempty(V.axes[0]))),
    register(FunContract(dSbr_dV, spec_dSbr_dV, {'sparse': c2, 'dense': lambda S: c2(S, 'matrix')}, requires=lambda b, Yf, Yt, V: nonempty(V.axes[0], b.axes[0]))),
    register(FunContract(dIbr_dV, spec_dIbr_dV, {'sparse': c2, 'dense': lambda S: c2(S, 'matrix')}, requires=lambda b, Yf, Yt, V: nonempty(V.axes[0]))),
    register(FunContract(dAbr_dV, spec_dAbr_dV, {'any': c3}, requires=lambda A_, B_, C_, D_, Ff, Ft: nonempty(Ff.axes[0]))),
]
LEMMAS = [(nm, (lambda x=x: solve.is_zero(x))) for nm, x in lemmas_first()]

def cdiff(f, x, h=1e-6):
    """central difference Jacobian of a vector function"""
    f0 = np.asarray(f(x)); J = np.zeros((f0.size, x.size), complex)
    for j in range(x.size):
        e = np.zeros(x.size); e[j] = h
        J[:, j] = (np.asarray(f(x + e)) - np.asarray(f(x - e))) / (2 * h)
    return J
def numeric(rng, k):
    from scipy.sparse import csr_matrix
    c = G.internal_case(rng)
    nb = c['bus'].shape[0]; nl = c['branch'].shape[0]
    sp = lambda M: csr_matrix(M)
    Yb = rng.randn(nb, nb) + 1j * rng.randn(nb, nb); Yf = rng.randn(nl, nb) + 1j * rng.randn(nl, nb); Yt = rng.randn(nl, nb) + 1j * rng.randn(nl, nb)
    va = rng.uniform(-3, 3, nb); vm = G.mags(rng, nb, 0.5, 1.5)
    V = lambda a, m: m * np.exp(1j * a)
    V0 = V(va, vm)
    f = c['branch'][:, F_BUS].astype(int); to = c['branch'][:, T_BUS].astype(int)
    q = {'Sbus': lambda v: v * np.conj(Yb @ v), 'Sf': lambda v: v[f] * np.conj(Yf @ v), 'St': lambda v: v[to] * np.conj(Yt @ v), 'If': lambda v: Yf @ v, 'It': lambda v: Yt @ v}
    J = {n: (cdiff(lambda a: g(V(a, vm)), va), cdiff(lambda m: g(V(va, m)), vm)) for n, g in q.items()}
    for M, tag in ((csr_matrix, 'sparse'), (np.asmatrix, 'dense')):
        dm, da = dSbus_dV(M(Yb), V0)
        needclose(da, J['Sbus'][0], 'dSbus_dVa ' + tag, 1e-6); needclose(dm, J['Sbus'][1], 'dSbus_dVm ' + tag, 1e-6)
        for fn, a, b in ((dSbr_dV, 'Sf', 'St'), (dIbr_dV, 'If', 'It')):
            r = fn(c['branch'], M(Yf), M(Yt), V0)
            for i, (n, w) in enumerate(((a, 0), (a, 1), (b, 0), (b, 1))): needclose(r[i], J[n][w], '%s output %d %s' % (fn.__name__, i, tag), 1e-6, V=V0)
            needclose(r[4], q[a](V0), a); needclose(r[5], q[b](V0), b)
            if tag == 'sparse':
                ab = dAbr_dV(*r)
                for i, (n, w) in enumerate(((a, 0), (a, 1), (b, 0), (b, 1))):
                    F = q[n](V0)
                    needclose(ab[i], 2 * np.real(np.conj(F)[:, None] * J[n][w]), 'dAbr_dV output %d' % i, 1e-5)
    return (nb, nl)
RUNTIME = [RT('difference quotients', numeric, 80, 600, ['dSbus_dV', 'dSbr_dV', 'dIbr_dV', 'dAbr_dV'], 'random matrices up to 9 buses')]
ASSUMPTIONS = ['voltages are nonzero']
