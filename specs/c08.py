from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.loops import LoopContract
from pv.runner import RT, Skip
from pv.arrays import dimaxis, fixaxis, cataxis
from .net import *
from .c07 import masked
from . import gen as G
from .gen import need, needclose
import numpy as np
from pypower.newtonpf import newtonpf
from pypower.fdpf import fdpf
from pypower.gausspf import gausspf
from . import c05
from pypower.dSbus_dV import dSbus_dV

NB = dimaxis('nb')
typ = lambda i, *k: t.mkor(*[t.cmp_eq(t.inp('bt', (i,), 'e(1,2,3)'), t.q(x)) for x in k])
PQ, PV, REF = 1, 2, 3
def setup(S, opt, B=False, verbose=0):
    nb = S.dim('nb', 1, 5)
    S.inp('bt', (t.iv('i', 'nb'),), 'e(1,2,3)')
    Y = S.array('Ybus', [nb, nb], 'c', storage='sparse')
    Sb = S.array('Sbus', [nb], 'c'); S.inp('V0m', (t.iv('i', 'nb'),), 'p'); S.inp('V0a', (t.iv('i', 'nb'),), 'r')
    V0 = SArray([nb], lambda i: t.inp('V0m', (i,), 'p') * t.expv(t.J * t.inp('V0a', (i,))), 'c')
    ref, pv, pq = [masked(nb, lambda i, k=k: typ(i, k))[0] for k in (REF, PV, PQ)]
    o = {'PF_TOL': S.scalar('tol', 'p'), opt: S.scalar('maxit', 'p'), 'VERBOSE': verbose, 'PF_LIN_SOLVER_NR': ''}
    m = o[opt]      # iteration limit: a non-negative integer
    S.pre += [t.mknot(m < 0), t.mkor(t.mknot(0 < m), t.mknot(m < 1))]
    a = [Y, Sb, V0]
    if B: a += [S.array(n, [nb, nb], 'r', storage='sparse') for n in ('Bp', 'Bpp')]
    return a + [ref, pv, pq, o]

def mismatch(Y, S, V, i):
    return V(i) * t.conj(A.sum_over(NB, lambda k: Y.num(i, k) * V(k))) - S.num(i)
def solved(Y, S, V, tol, rel=None):
    """all controlled equations hold to the tolerance"""
    m = lambda i: mismatch(Y, S, V, i) * (t.power(rel(i), -1) if rel else 1)
    bad = lambda kind, part: A.any_over(NB, lambda i: t.mkand(typ(i, kind), t.mknot(t.absv(part(m(i))) < tol)))
    return t.mknot(t.mkor(bad(PV, t.real), bad(PQ, t.real), bad(PQ, t.imag)))
def held(V, V0):
    return [('reference voltages as given', Claim([NB], lambda i: t.br(typ(i, REF)) * (V(i) - V0.num(i)))),
            ('voltage-controlled magnitudes as given', Claim([NB], lambda i: t.br(typ(i, PV)) * (t.absv(V(i)) - t.absv(V0.num(i)))))]
def num(f): return lambda i: t.lift(f(i)) if not isinstance(f(i), T) else f(i)
def vec(x): return lambda i: x.num(i)
def stack(Y, S, V, parts, rel=None):
    m = lambda i: mismatch(Y, S, V, i) * (t.power(rel(i), -1) if rel else 1)
    axs = [dimaxis('nb', lambda i, k=k: typ(i, *k)) for k, f in parts]
    if len(parts) == 1: return SArray(axs, lambda i: parts[0][1](m(i)), 'f')
    return SArray([cataxis(axs)], lambda b: parts[b[0]][1](m(b[1])), 'f')

def counter(interp, fr, maxit):
    it = t.inp('it', ())
    interp.path.append(t.mknot(it < 1))
    interp.path.append(t.mknot(maxit < it))
    interp.path.append(t.mkor(t.mknot(it < maxit), t.mknot(maxit < it + 1)))      # the counter is an integer
    fr.loc['i'] = it
def flag(interp, fr, cond):
    if interp.decide(t.pred('$converged', ())):
        interp.path.append(cond); fr.loc['converged'] = 1
    else: interp.path.append(t.mknot(cond)); fr.loc['converged'] = 0
def arg(interp, fr, n): return fr.loc[n]

# ---- Newton: V, |V| and arg V in step; F is the stacked mismatch
NPARTS = [((PV,), t.real), ((PQ,), t.real), ((PQ,), t.imag)]
def newton_loop(maxname):
    def V_any(V0):
        W = lambda i: t.inp('W', (i,), 'c')
        return lambda i: t.ite(typ(i, REF), V0.num(i), t.ite(typ(i, PV), t.absv(V0.num(i)) * t.expv(t.J * t.inp('Wa', (i,))), W(i)))
    def havoc(interp, fr):
        V0 = fr.loc['V0']; o = fr.loc['ppopt']
        V = V_any(V0)
        fr.loc['V'] = SArray([NB], V, 'c'); fr.loc['Va'] = SArray([NB], lambda i: t.argv(V(i)), 'f'); fr.loc['Vm'] = SArray([NB], lambda i: t.absv(V(i)), 'f')
        fr.loc['F'] = stack(fr.loc['Ybus'], fr.loc['Sbus'], V, NPARTS)
        interp.path.append(t.mknot(solved(fr.loc['Ybus'], fr.loc['Sbus'], vec(V0), o['PF_TOL'])))
        counter(interp, fr, o[maxname])
        flag(interp, fr, solved(fr.loc['Ybus'], fr.loc['Sbus'], V, o['PF_TOL']))
        for n in ('mis', 'normF'): fr.loc.pop(n, None)
    def check(interp, fr):
        V, F, o, Vm, Va = [snapshot(fr.loc[n]) for n in ('V', 'F', 'ppopt', 'Vm', 'Va')]
        v = vec(V)
        out = held(v, fr.loc['V0'])
        out += [('Vm is |V|', Claim([NB], lambda i: Vm.num(i) - t.absv(v(i)))),
                ('Va is arg V', Claim([NB], lambda i: t.expv(t.J * Va.num(i)) * t.absv(v(i)) - v(i)))]
        W = stack(fr.loc['Ybus'], fr.loc['Sbus'], v, NPARTS)
        out += [('F is the mismatch', lambda: F.ndim == 1 and A.match_axes(F.axes[0], W.axes[0]) is None), ('F entries', Claim(W.axes, lambda i: F.num(i) - W.num(i)))]
        return out + common(interp, fr, v, o[maxname], o['PF_TOL'])
    return LoopContract(havoc, check, keep=('converged', 'i'))
def common(interp, fr, v, maxit, tol, rel=None, rel0=None):
    Y, S, V0, i = fr.loc['Ybus'], fr.loc['Sbus'], fr.loc['V0'], t.lift(fr.loc['i'])
    out = [('iteration limit', t.mknot(maxit < i))]
    if fr.loc['converged']: out.append(('converged only when solved', solved(Y, S, v, tol, rel)))
    else: out.append(('not solved when it goes on', t.mknot(solved(Y, S, v, tol, rel))))
    if i is not t.ZERO: out.append(('iterates only from an unsolved start', t.mknot(solved(Y, S, vec(V0), tol, rel0))))
    return out

def post(maxname, rel=False):
    def f(out, args, snap, ghost, it):
        Y, S, V0 = snap[:3]; o = snap[-1]; tol = o['PF_TOL']
        if not isinstance(out, (tuple, list)) or len(out) != 3: return [('returns V, converged, iterations', lambda: False)]
        V, conv, i = out
        v = vec(V)
        r = (lambda k: t.absv(v(k))) if rel else None
        r0 = (lambda k: t.absv(V0.num(k))) if rel else None
        start = solved(Y, S, vec(V0), tol, r0)
        cl = held(v, V0) + [('iteration limit', t.mknot(o[maxname] < t.lift(i)))]
        cl.append(('the flag is 0 or 1', lambda: conv in (0, 1)))
        cl.append(('converged exactly when solved', solved(Y, S, v, tol, r) if conv else t.mknot(solved(Y, S, v, tol, r))))
        cl.append(('solved start is returned after zero iterations', t.mkor(t.mknot(start), t.eq0(t.lift(i)))))
        if t.lift(i) is t.ZERO: cl.append(('no iteration, no change', Claim([NB], lambda k: v(k) - V0.num(k))))
        return cl
    return f

NEWTON = register(FunContract(newtonpf, None, {'any': lambda S: setup(S, 'PF_MAX_IT')}, post=post('PF_MAX_IT'), callees=[('pypower.dSbus_dV', 'dSbus_dV')],
                              loops={('pypower.newtonpf', 'newtonpf'): {('while', 0): newton_loop('PF_MAX_IT')}}))

# ---- fast decoupled: V = Vm exp(j Va); P and Q are the mismatches relative to Vm
FP = [((PV,), t.real), ((PQ,), t.real)]; FQ = [((PQ,), t.imag)]
def fd_loop():
    def state(fr):
        V0 = fr.loc['V0']
        m = lambda i: t.ite(typ(i, PQ), t.inp('Wm', (i,)), t.absv(V0.num(i)))
        a = lambda i: t.ite(typ(i, REF), t.argv(V0.num(i)), t.inp('Wa', (i,)))
        return m, a
    def havoc(interp, fr):
        o = fr.loc['ppopt']; Y, S, V0 = fr.loc['Ybus'], fr.loc['Sbus'], fr.loc['V0']
        m, a = state(fr)
        V = lambda i: m(i) * t.expv(t.J * a(i))
        fr.loc['V'] = SArray([NB], V, 'c'); fr.loc['Va'] = SArray([NB], a, 'f'); fr.loc['Vm'] = SArray([NB], m, 'f')
        fr.loc['P'] = stack(Y, S, V, FP, m); fr.loc['Q'] = stack(Y, S, V, FQ, m)
        interp.path.append(t.mknot(solved(Y, S, vec(V0), o['PF_TOL'], lambda i: t.absv(V0.num(i)))))
        counter(interp, fr, o['PF_MAX_IT_FD'])
        flag(interp, fr, solved(Y, S, V, o['PF_TOL'], m))
        for n in ('mis', 'normP', 'normQ', 'dVa', 'dVm'): fr.loc.pop(n, None)
    def check(interp, fr):
        V, P_, Q_, o, Vm, Va = [snapshot(fr.loc[n]) for n in ('V', 'P', 'Q', 'ppopt', 'Vm', 'Va')]
        Y, S, V0 = fr.loc['Ybus'], fr.loc['Sbus'], fr.loc['V0']
        v = vec(V); m = vec(Vm)
        out = held(v, V0) + [('V = Vm exp(j Va)', Claim([NB], lambda i: v(i) - m(i) * t.expv(t.J * Va.num(i)))),
            ('reference angle', Claim([NB], lambda i: t.br(typ(i, REF)) * (t.expv(t.J * Va.num(i)) * t.absv(V0.num(i)) - V0.num(i)))),
            ('held magnitudes', Claim([NB], lambda i: t.br(typ(i, REF, PV)) * (m(i) - t.absv(V0.num(i)))))]
        for nm, x, parts in (('P', P_, FP), ('Q', Q_, FQ)):
            W = stack(Y, S, v, parts, m)
            out += [('%s is the mismatch' % nm, lambda x=x, W=W: x.ndim == 1 and A.match_axes(x.axes[0], W.axes[0]) is None), ('%s entries' % nm, Claim(W.axes, lambda i, x=x, W=W: x.num(i) - W.num(i)))]
        return out + common(interp, fr, v, o['PF_MAX_IT_FD'], o['PF_TOL'], m, lambda i: t.absv(V0.num(i)))
    return LoopContract(havoc, check, keep=('converged', 'i'))
def fd_setup(S):
    a = setup(S, 'PF_MAX_IT_FD', B=True)
    return a
FD = register(FunContract(fdpf, None, {'any': fd_setup}, post=post('PF_MAX_IT_FD', rel=True), loops={('pypower.fdpf', 'fdpf'): {('while', 0): fd_loop()}}))

# ---- Gauss-Seidel: V and the reactive injection at voltage-controlled buses change in place
S0 = SArray([NB], lambda i: t.inp('Sbus', (i,), 'c'), 'c')
def gs_free(interp, fr, tag, pvheld):
    V, S, V0 = fr.loc['V'], fr.loc['Sbus'], fr.loc['V0']
    pvval = (lambda i: t.absv(V0.num(i)) * t.expv(t.J * t.inp('Wa' + tag, (i,)))) if pvheld else (lambda i: t.inp('W' + tag, (i,), 'c'))
    v0 = V0.fn
    V._setfn(lambda i: t.ite(typ(i, REF), v0(i), t.ite(typ(i, PV), pvval(i), t.inp('W' + tag, (i,), 'c'))))
    S._setfn(lambda i: S0.num(i) + t.J * t.br(typ(i, PV)) * t.inp('q' + tag, (i,)))
    return [V, S]
def gs_held(fr):
    V, S, V0 = [snapshot(fr.loc[n]) for n in ('V', 'Sbus', 'V0')]
    return [('reference voltages as given', Claim([NB], lambda i: t.br(typ(i, REF)) * (V.num(i) - V0.num(i)))),
            ('injections away from voltage-controlled buses', Claim([NB], lambda i: t.br(typ(i, REF, PQ)) * (S.num(i) - S0.num(i)))),
            ('real injections', Claim([NB], lambda i: t.real(S.num(i)) - t.real(S0.num(i))))]
def gs_inner(tag):
    def havoc(interp, fr):
        fr.loc.pop('tmp', None)
        return gs_free(interp, fr, tag, False)
    return LoopContract(havoc, lambda interp, fr: gs_held(fr))
def gs_outer():
    def havoc(interp, fr):
        o = fr.loc['ppopt']; Y, V0 = fr.loc['Ybus'], fr.loc['V0']
        ch = gs_free(interp, fr, 'o', True)
        v = fr.loc['V'].fn
        fr.loc['F'] = stack(Y, S0, v, NPARTS)
        interp.path.append(t.mknot(solved(Y, S0, vec(V0), o['PF_TOL'])))
        counter(interp, fr, o['PF_MAX_IT_GS'])
        flag(interp, fr, solved(Y, S0, v, o['PF_TOL']))
        for n in ('mis', 'normF', 'tmp', 'k'): fr.loc.pop(n, None)
        return ch
    def check(interp, fr):
        V, o, F = snapshot(fr.loc['V']), fr.loc['ppopt'], fr.loc['F']
        fr2 = type(fr)(fr.glob); fr2.loc = dict(fr.loc); fr2.loc['Sbus'] = S0
        return gs_held(fr) + held(vec(V), snapshot(fr.loc['V0'])) + common(interp, fr2, vec(V), o['PF_MAX_IT_GS'], o['PF_TOL'])
    return LoopContract(havoc, check, keep=('converged', 'i'))
def gs_post(out, args, snap, ghost, it):
    S = args[1]
    return post('PF_MAX_IT_GS')(out, args, snap, ghost, it) + [
        ('injections change only in the reactive part at voltage-controlled buses', Claim([NB], lambda i: (S.num(i) - S0.num(i)) * t.br(typ(i, REF, PQ)))),
        ('real injections', Claim([NB], lambda i: t.real(S.num(i)) - t.real(S0.num(i))))]
GS_ = register(FunContract(gausspf, None, {'any': lambda S: setup(S, 'PF_MAX_IT_GS')}, modifies=(1,), post=gs_post,
        loops={('pypower.gausspf', 'gausspf'): {('while', 0): gs_outer(), ('for', 0): gs_inner('a'), ('for', 1): gs_inner('b')}}))
CONTRACTS = [NEWTON, FD, GS_]

# ---- run-time evaluation on the real code ------------------------------------------------
from pypower.makeYbus import makeYbus
from pypower.makeB import makeB
from pypower.bustypes import bustypes
from pypower.ppoption import ppoption
from pypower.idx_bus import *
from pypower.idx_gen import *
from pypower.idx_brch import *
def problem(rng, k):
    if k % 5 == 4:
        c = G.renumber(G.shipped(G.SHIPPED[rng.randint(len(G.SHIPPED))]))
        c['bus'][:, [PD, QD]] *= rng.uniform(.5, 1.3)
        c['bus'][:, VA] *= rng.rand() < .5
    else: c = G.internal_case(rng, easy=True)
    if k % 4 == 3: c['bus'][:, [PD, QD]] *= rng.uniform(4, 40)        # likely unsolvable
    bus, gen, br = c['bus'], c['gen'], c['branch']
    ref, pv, pq = bustypes(bus, gen)
    Y = makeYbus(c['baseMVA'], bus, br)[0]
    V0 = bus[:, VM] * np.exp(1j * np.deg2rad(bus[:, VA]))
    if k % 7 == 0: V0 = V0 * np.exp(1j * rng.uniform(-3, 3))
    for g in gen:
        if g[GEN_STATUS] > 0: i = int(g[0]); V0[i] = g[VG] / abs(V0[i]) * V0[i]
    S = G.scheduled(c)
    return c, Y, S, V0, np.atleast_1d(ref).astype(int), np.asarray(pv, int), np.asarray(pq, int)
def residual(c, S, V, pv, pq, rel=False):
    m = G.injections(c, V) - S
    if rel: m = m / abs(V)
    r = np.r_[m[pv].real, m[pq].real, m[pq].imag]
    if not len(r): return 0.0
    return max(abs(r)) if np.isfinite(r).all() else np.inf
def solvers(c, alg, Y, S, V0, ref, pv, pq, o):
    if alg == 1: return newtonpf(Y, S, V0, ref, pv, pq, o)
    if alg == 4: return gausspf(Y, S, V0, ref, pv, pq, o)
    Bp, Bpp = makeB(c['baseMVA'], c['bus'], c['branch'], alg)
    return fdpf(Y, S, V0, Bp, Bpp, ref, pv, pq, o)
def judge(c, alg, o, S, V0, ref, pv, pq, out, tol, mx, what):
    V, conv, it = out
    need(V.shape == V0.shape, what + ': shape')
    need(0 <= it <= mx, what + ': %d iterations, limit %d' % (it, mx))
    need(np.array_equal(V[ref], V0[ref]) or np.allclose(V[ref], V0[ref], rtol=0, atol=1e-13), what + ': reference voltage changed', V=V, V0=V0, ref=ref)
    if np.isfinite(V).all(): need(np.allclose(abs(V[pv]), abs(V0[pv]), rtol=1e-12, atol=1e-12), what + ': controlled magnitude changed', V=V, V0=V0, pv=pv)
    rel = alg in (2, 3)
    r = residual(c, S, V, pv, pq, rel)
    if conv: need(r < tol * (1 + 1e-6) + 1e-12, what + ': reports convergence with mismatch %g, tolerance %g' % (r, tol), case=c, V0=V0, alg=alg)
    else: need(not r < tol * (1 - 1e-6) - 1e-12, what + ': reports failure at a solution (%g, tolerance %g)' % (r, tol), case=c, V0=V0, alg=alg)
    r0 = residual(c, S, V0, pv, pq, rel)
    if r0 < tol * (1 - 1e-6) - 1e-12: need(conv and it == 0 and np.array_equal(V, V0), what + ': solved start not returned unchanged', V=V, V0=V0)
def by_solver(rng, k):
    c, Y, S, V0, ref, pv, pq = problem(rng, k)
    algs = [1, 4, 2, 3]
    alg = algs[k % len(algs)]
    tol = 10.0 ** rng.choice([-10, -8, -6, -3, -1]); mx = int(rng.choice([0, 1, 2, 5, 30, 200])) if alg != 1 else int(rng.choice([0, 1, 2, 10, 10]))
    o = ppoption(PF_ALG=alg, PF_TOL=tol, PF_MAX_IT=mx, PF_MAX_IT_FD=mx, PF_MAX_IT_GS=mx, VERBOSE=0, OUT_ALL=0)
    S0 = S.copy(); Vin = V0.copy(); Y0 = Y.copy()
    out = solvers(c, alg, Y, S, V0, ref, pv, pq, o)
    need(np.array_equal(V0, Vin) and (abs(Y - Y0)).sum() == 0, 'solver %d changed its inputs' % alg)
    judge(c, alg, o, S0, Vin, ref, pv, pq, out, tol, mx, 'algorithm %d' % alg)
    if out[1]:      # restart from the solution
        o2 = ppoption(o, PF_TOL=tol * 1.5 + 1e-11)
        out2 = solvers(c, alg, Y, S0.copy(), out[0].copy(), ref, pv, pq, o2)
        judge(c, alg, o2, S0, out[0], ref, pv, pq, out2, tol * 1.5 + 1e-11, mx, 'algorithm %d restarted' % alg)
    return (k, alg, len(V0), bool(out[1]), int(out[2]))
RUNTIME = [RT('solvers on random networks', by_solver, 200, 1500, ['newtonpf', 'fdpf', 'gausspf'], 'networks up to 9 buses and shipped cases')]
ASSUMPTIONS = ['start voltages are given with positive magnitudes', 'the linear solvers return a solution of the given system (assumed contract)', 'the iteration limit is a non-negative integer', 'every generated network satisfies the callers\' contracts']
TRUSTED = ['scipy.sparse.linalg.spsolve / splu / solve: the returned x satisfies A x = b (assumed contract)']
EXPLANATION = 'loop contracts (havoc/check) on the iteration loops of newtonpf, fdpf and gausspf; the postcondition is proved on exit for any number of iterations'
