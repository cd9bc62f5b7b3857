from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.loops import LoopContract
from pv.runner import RT, Skip
from pv import solve
from pv.arrays import dimaxis, fixaxis, cataxis
from .net import *
from .c07 import masked
from . import gen as G
from .gen import need, needclose
from .derivs import spec_dSbus_dV
from .c08 import NB, typ, mismatch, held, vec, counter, flag, PQ, PV, REF
import numpy as np
from pypower.cpf_p import cpf_p
from pypower.cpf_p_jac import cpf_p_jac
from pypower.cpf_predictor import cpf_predictor
from pypower.cpf_corrector import cpf_corrector
from . import c05

ZAX = lambda: cataxis([NB, NB, fixaxis(1)])
def polar(S, m, a):
    S.inp(m, (t.iv('i', 'nb'),), 'p'); S.inp(a, (t.iv('i', 'nb'),), 'r')
    return SArray([NB], lambda i: t.inp(m, (i,), 'p') * t.expv(t.J * t.inp(a, (i,))), 'c')
def base(S):
    S.dim('nb', 1, 5); S.inp('bt', (t.iv('i', 'nb'),), 'e(1,2,3)')
    pv, pq = [masked(NB, lambda i, k=k: typ(i, k))[0] for k in (PV, PQ)]
    V, Vp = polar(S, 'Vm', 'Va'), polar(S, 'Vpm', 'Vpa')
    z = S.array('z', [ZAX()], 'r')
    return V, Vp, S.scalar('lam'), S.scalar('lamprv'), S.scalar('step', 'p'), z, pv, pq

# ---- the step-length equation in index notation
def dva(V, Vp, i): return t.argv(V.num(i)) - t.argv(Vp.num(i))
def dvm(V, Vp, i): return t.absv(V.num(i)) - t.absv(Vp.num(i))
def steplen(par, V, Vp, lam, lamprv, step, z):
    """natural, arc length, pseudo arc length"""
    d = lam - lamprv
    if par == 1: return t.ite(d < 0, -d, d) - step
    s = lambda k, f: A.sum_over(NB, lambda i: t.br(typ(i, *k)) * f(i))
    if par == 2: return s((PV, PQ), lambda i: dva(V, Vp, i) * dva(V, Vp, i)) + s((PQ,), lambda i: dvm(V, Vp, i) * dvm(V, Vp, i)) + d * d - step * step
    return s((PV, PQ), lambda i: z.num((0, i)) * dva(V, Vp, i)) + s((PQ,), lambda i: z.num((1, i)) * dvm(V, Vp, i)) + z.num((2, 0)) * d - step
def lamof(S, arr): 
    l = S.scalar('lam'); return SArray([fixaxis(1)], lambda i: l, 'f') if arr else l
def scal(x):
    """value of a number or of an array holding one number; None for anything else"""
    if not isinstance(x, SArray): return t.lift(x)
    if x.ndim == 0: return x.num()
    return x.num(*[0] * x.ndim) if all(a.isfix(1) for a in x.axes) else None
def p_args(par, arr=False):
    def f(S):
        V, Vp, lam, lp, step, z, pv, pq = base(S)
        return [par, step, z, V, lamof(S, arr), Vp, lp, pv, pq]
    return f
def p_post(out, args, snap, ghost, it):
    par, step, z, V, lam, Vp, lp, pv, pq = snap
    o = scal(out)
    if o is None or isinstance(out, SArray) and out.ndim > 1: return [('one number', lambda: False)]
    return [('step-length equation', Claim([], lambda: o - steplen(par, V, Vp, scal(lam), lp, step, z)))]
NAMES = {1: 'natural', 2: 'arc length', 3: 'pseudo arc length'}
VARIANTS = [(k, a) for k in NAMES for a in (False, True)]
name = lambda k, a: NAMES[k] + (', loading parameter in an array' if a else '')
def buses(V, z, pv, pq):
    """precondition of the step-length functions: pv and pq are the buses of those types, V is per bus, the tangent covers angles, magnitudes and loading"""
    ok = lambda x, ax: isinstance(x, SArray) and x.ndim == 1 and A.match_axes(x.axes[0], ax) is None
    V, z, pv, pq = snapshot([V, z, pv, pq]); out = [lambda: ok(V, NB), lambda: ok(z, ZAX())]
    for x, k in ((pv, PV), (pq, PQ)):
        m = masked(NB, lambda i, k=k: typ(i, k))[0]
        out += [lambda x=x, m=m: ok(x, m.axes[0]), lambda x=x, m=m: all(x.num(i) is m.num(i) for i, c in A.generic_index(m.axes[0], 'i'))]
    return out
def p_call(par, step, z, V, lam, Vp, lp, pv, pq): return steplen(par, V, Vp, scal(lam), scal(lp), scal(step), z)
cP = register(FunContract(cpf_p, None, {name(k, a): p_args(k, a) for k, a in VARIANTS}, post=p_post, at_call=p_call, requires=lambda par, step, z, V, lam, Vp, lp, pv, pq: buses(V, z, pv, pq) + buses(Vp, z, pv, pq)[:1]))

# ---- its derivatives: obtained by differentiating the equation in the term algebra
def j_args(par, arr=False):
    def f(S):
        V, Vp, lam, lp, step, z, pv, pq = base(S)
        return [par, z, V, lamof(S, arr), Vp, lp, pv, pq]
    return f
import os, sys
DEEP = os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv
XAX = lambda: cataxis([dimaxis('nb', lambda i: typ(i, PV)), dimaxis('nb', lambda i: typ(i, PQ)), dimaxis('nb', lambda i: typ(i, PQ))])
def dsteplen(par, V, Vp, lam, lp, z):
    """derivatives with respect to the angle of a bus, the magnitude of a bus and the loading parameter (closed form; see the lemmas)"""
    if par == 1: return (lambda i: t.ZERO), (lambda i: t.ZERO), t.ite(lam < lp, -t.ONE, t.ONE)
    if par == 2: return (lambda i: 2 * dva(V, Vp, i)), (lambda i: 2 * dvm(V, Vp, i)), t.ite(t.cmp_eq(lam, lp), t.ONE, 2 * (lam - lp))
    return (lambda i: z.num((0, i))), (lambda i: z.num((1, i))), z.num((2, 0))
def j_post(out, args, snap, ghost, it):
    par, z, V, lam, Vp, lp, pv, pq = snap
    if not isinstance(out, tuple) or len(out) != 2: return [('gradient and slope', lambda: False)]
    g, d = out; o = scal(d); a, m, l = dsteplen(par, V, Vp, scal(lam), lp, z)
    if o is None or isinstance(d, SArray) and d.ndim > 1 or not isinstance(g, SArray): return [('gradient and slope', lambda: False)]
    X = XAX(); g = snapshot(g)
    return [('one entry per unknown', lambda: g.ndim == 1 and A.match_axes(g.axes[0], X) is None),
            ('gradient', Claim([X], lambda i: g.num(i) - (m if i[0] == 2 else a)(i[1]))), ('slope in the loading parameter', Claim([], lambda: o - l))]
def j_call(par, z, V, lam, Vp, lp, pv, pq):
    a, m, l = dsteplen(par, V, Vp, scal(lam), scal(lp), z)
    return SArray([XAX()], lambda i: (m if i[0] == 2 else a)(i[1]), 'f'), l
cJ = register(FunContract(cpf_p_jac, None, {name(k, a): j_args(k, a) for k, a in VARIANTS}, post=j_post, at_call=j_call, requires=lambda par, z, V, lam, Vp, lp, pv, pq: buses(V, z, pv, pq) + buses(Vp, z, pv, pq)[:1]))
def lemmas():
    from pv.verify import Sym
    S = Sym(); V, Vp, lam, lp, step, z, pv, pq = base(S); i = t.iv('i', 'nb'); out = []
    for par in NAMES:
        P = steplen(par, V, Vp, lam, lp, step, z); a, m, l = dsteplen(par, V, Vp, lam, lp, z)
        w = lambda k, x: t.br(typ(i, *k)) * x
        out.append((NAMES[par] + ': angle', t.diff(P, 'Va', (i,)) - w((PV, PQ), a(i)))); out.append((NAMES[par] + ': magnitude', t.diff(P, 'Vm', (i,)) - w((PQ,), m(i))))
    out.append(('arc length: loading', t.diff(steplen(2, V, Vp, lam, lp, step, z), 'lam', ()) - 2 * (lam - lp)))
    out.append(('pseudo arc length: loading', t.diff(steplen(3, V, Vp, lam, lp, step, z), 'lam', ()) - z.num((2, 0))))
    return out
LEMMAS = [('derivative of the step length, ' + n, (lambda x=x: solve.is_zero(x))) for n, x in lemmas()]

# ---- prediction -----------------------------------------------------------------------------------
def pred_args(par, arr=False):
    def f(S):
        V, Vp, lam, lp, step, z, pv, pq = base(S)
        S.pre.append(A.any_over(NB, lambda i: typ(i, REF))); S.pre.append(A.any_over(NB, lambda i: typ(i, PV, PQ)))
        z0 = SArray([ZAX()], lambda b: t.br(t.TRUE if b[0] == 2 else typ(b[1], *((PV, PQ), (PQ,))[b[0]])) * z.num(b), 'f')
        return [V, lamof(S, arr), S.array('Ybus', [NB, NB], 'c', storage='sparse'), S.array('Sxfr', [NB], 'c'), pv, pq, step, z0, Vp, lp, par]
    return f
def tangent_rows(Y, V, Sx, x):
    """derivative of the power-flow equations along x = (angles, magnitudes, loading): complex mismatch per bus"""
    m, a = spec_dSbus_dV(Y, V)
    return lambda i: A.sum_over(NB, lambda j: a.num(i, j) * x((0, j)) + m.num(i, j) * x((1, j))) - Sx.num(i) * x((2, 0))
def free(k): return (lambda i: typ(i, PV, PQ)) if k == 0 else (lambda i: typ(i, PQ))
def unknown(x):
    """the solver's unknowns (angles at pv and pq, magnitudes at pq, loading) as a function over all buses"""
    def f(b):
        if b[0] == 2: return x.num((3, 0))
        if b[0] == 1: return t.br(typ(b[1], PQ)) * x.num((2, b[1]))
        return t.br(typ(b[1], PV)) * x.num((0, b[1])) + t.br(typ(b[1], PQ)) * x.num((1, b[1]))
    return f
def pred_post(out, args, snap, ghost, it):
    V, lam, Y, Sx, pv, pq, step, z, Vp, lp, par = snap; lam = scal(lam)
    if not isinstance(out, tuple) or len(out) != 3: return [('V0, lam0, z', lambda: False)]
    V0, l0, zn = out; l0 = scal(l0)
    if l0 is None: return [('one loading parameter', lambda: False)]
    from pv.npmodel import Solve
    s = [g for g in ghost if isinstance(g, Solve)]
    if len(s) != 1 or not isinstance(zn, SArray): return [('one linear solve', lambda: False)]
    s = s[0]; X = s.A.axes[1]; u = unknown(s.x); zn = snapshot(zn); V0 = snapshot(V0); n2 = A.reduce_sum(SArray([ZAX()], lambda b: u(b) * u(b), 'f')); N = t.sqrtv(n2)
    cl = [('tangent over angles, magnitudes and loading', lambda: zn.ndim == 1 and A.match_axes(zn.axes[0], ZAX()) is None)]
    for b, nm in ((0, 'angles'), (1, 'magnitudes')): cl.append(('z: ' + nm, Claim([NB], lambda i, b=b: zn.num((b, i)) * N - u((b, i)))))
    cl.append(('z: loading', Claim([], lambda: zn.num((2, 0)) * N - u((2, 0)))))
    T = tangent_rows(Y, V, Sx, u); res = lambda k: s.residual(k) + s.b.num(k)
    cl += [('moves along the solutions: real power at pv buses', Claim([NB], lambda i: t.real(T(i)) - res((0, i)), given=lambda i: [typ(i, PV)])),
           ('moves along the solutions: real power at pq buses', Claim([NB], lambda i: t.real(T(i)) - res((1, i)), given=lambda i: [typ(i, PQ)])),
           ('moves along the solutions: reactive power', Claim([NB], lambda i: t.imag(T(i)) - res((2, i)), given=lambda i: [typ(i, PQ)]))]
    cl += [('no drift off the solutions', Claim([NB], lambda i, r=r: s.b.num((r, i)))) for r in (0, 1, 2)]
    a, m, l = dsteplen(par, V, Vp, lam, lp, z)
    cl.append(('step-length equation', Claim([], lambda: A.sum_over(NB, lambda i: a(i) * u((0, i)) * t.br(typ(i, PV, PQ)) + m(i) * u((1, i)) * t.br(typ(i, PQ))) + l * u((2, 0)) - res((3, 0)))))
    cl.append(('moves forward', Claim([], lambda: s.b.num((3, 0)) - 1)))
    cl += [('predicted voltages', Claim([NB], lambda i: V0.num(i) - (t.absv(V.num(i)) + step * zn.num((1, i))) * t.expv(t.J * (t.argv(V.num(i)) + step * zn.num((0, i)))))), ('predicted loading', Claim([], lambda: l0 - lam - step * zn.num((2, 0))))]
    return cl
cPred = register(FunContract(cpf_predictor, None, {name(k, a): pred_args(k, a) for k, a in VARIANTS}, post=pred_post, modifies=(7,), callees=[('pypower.dSbus_dV', 'dSbus_dV'), ('pypower.cpf_p_jac', 'cpf_p_jac')]))

# ---- correction: V, |V|, arg V, the loading parameter and F in step ----------------------------------
NPARTS = [((PV,), t.real), ((PQ,), t.real), ((PQ,), t.imag)]
class Eq(object):
    """the equations of a corrected point: power balance at the loading parameter and the step length"""
    def __init__(self, d):
        self.Y, self.Sb, self.Sx, self.Vp, self.lp, self.z, self.step, self.par, self.V0, self.l0, self.tol, self.maxit = [d[k] for k in ('Ybus', 'Sbus', 'Sxfr', 'Vprv', 'lamprv', 'z', 'step', 'parameterization', 'V0', 'lam0', 'tol', 'max_it')]
        self.tol = self.tol if self.tol is not None else d['ppopt']['PF_TOL']; self.maxit = self.maxit if self.maxit is not None else d['ppopt']['PF_MAX_IT']
    def mis(self, V, lam): return lambda i: V(i) * t.conj(A.sum_over(NB, lambda k: self.Y.num(i, k) * V(k))) - self.Sb.num(i) - lam * self.Sx.num(i)
    def P(self, V, lam): return steplen(self.par, SArray([NB], V, 'c'), self.Vp, lam, self.lp, self.step, self.z)
    def F(self, V, lam):
        m = self.mis(V, lam); axs = [dimaxis('nb', lambda i, k=k: typ(i, *k)) for k, f in NPARTS] + [fixaxis(1)]
        return SArray([cataxis(axs)], lambda b: self.P(V, lam) if b[0] == 3 else NPARTS[b[0]][1](m(b[1])), 'f')
    def solved(self, V, lam):
        m = self.mis(V, lam); bad = lambda kind, part: A.any_over(NB, lambda i: t.mkand(typ(i, kind), t.mknot(t.absv(part(m(i))) < self.tol)))
        return t.mknot(t.mkor(bad(PV, t.real), bad(PQ, t.real), bad(PQ, t.imag), t.mknot(t.absv(self.P(V, lam)) < self.tol)))
    def start(self): return self.solved(lambda i: self.V0.num(i), scal(self.l0))
def loc_eq(fr): return Eq({k: fr.loc.get(k) for k in ('Ybus', 'Sbus', 'Sxfr', 'Vprv', 'lamprv', 'z', 'step', 'parameterization', 'V0', 'lam0', 'ppopt')} | {'tol': fr.loc['ppopt']['PF_TOL'], 'max_it': fr.loc['ppopt']['PF_MAX_IT']})
def corr_args(par, arr=False):
    def f(S):
        a = pred_args(par)(S); V, lam, Y, Sx, pv, pq, step, z0, Vp, lp, _ = a
        o = {'PF_TOL': S.scalar('tol', 'p'), 'PF_MAX_IT': S.scalar('maxit', 'p'), 'VERBOSE': 0}
        m = o['PF_MAX_IT']; S.pre += [t.mknot(m < 0), t.mkor(t.mknot(0 < m), t.mknot(m < 1))]
        ref = masked(NB, lambda i: typ(i, REF))[0]
        return [Y, S.array('Sbus', [NB], 'c'), V, ref, pv, pq, lamof(S, arr), Sx, Vp, lp, z0, step, par, o]
    return f
def corr_loop():
    def havoc(interp, fr):
        e = loc_eq(fr); V0 = e.V0
        W = lambda i: t.inp('W', (i,), 'c')
        V = lambda i: t.ite(typ(i, REF), V0.num(i), t.ite(typ(i, PV), t.absv(V0.num(i)) * t.expv(t.J * t.inp('Wa', (i,))), W(i)))
        lam = t.inp('Wlam', ())
        fr.loc['V'] = SArray([NB], V, 'c'); fr.loc['Va'] = SArray([NB], lambda i: t.argv(V(i)), 'f'); fr.loc['Vm'] = SArray([NB], lambda i: t.absv(V(i)), 'f')
        fr.loc['lam'] = SArray([fixaxis(1)], lambda i: lam, 'f') if interp.decide(t.pred('$lamarr', ())) else lam
        fr.loc['F'] = e.F(V, lam)
        interp.path.append(t.mknot(e.start()))
        counter(interp, fr, e.maxit)
        flag(interp, fr, e.solved(V, lam))
        for n in ('mis', 'normF', 'P', 'dx', 'J'): fr.loc.pop(n, None)
    def check(interp, fr):
        e = loc_eq(fr); V, F, Vm, Va = [snapshot(fr.loc[n]) for n in ('V', 'F', 'Vm', 'Va')]; v = vec(V); lam = scal(fr.loc['lam']); i = t.lift(fr.loc['i'])
        if lam is None: return [('one loading parameter', lambda: False)]
        W = e.F(v, lam)
        out = held(v, e.V0) + [('Vm is |V|', Claim([NB], lambda i: Vm.num(i) - t.absv(v(i)))), ('Va is arg V', Claim([NB], lambda i: t.expv(t.J * Va.num(i)) * t.absv(v(i)) - v(i))),
               ('F is the mismatch', lambda: F.ndim == 1 and A.match_axes(F.axes[0], W.axes[0]) is None), ('F entries', Claim(W.axes, lambda i: F.num(i) - W.num(i))), ('iteration limit', t.mknot(e.maxit < i))]
        out.append(('converged only when solved', e.solved(v, lam)) if fr.loc['converged'] else ('not solved when it goes on', t.mknot(e.solved(v, lam))))
        if i is not t.ZERO: out.append(('iterates only from an unsolved start', t.mknot(e.start())))
        return out
    return LoopContract(havoc, check, keep=('converged', 'i'))
def corr_post(out, args, snap, ghost, it):
    Y, Sb, V0, ref, pv, pq, l0, Sx, Vp, lp, z, step, par, o = snap
    if not isinstance(out, (tuple, list)) or len(out) != 4: return [('V, converged, iterations, loading', lambda: False)]
    e = Eq({'Ybus': Y, 'Sbus': Sb, 'Sxfr': Sx, 'Vprv': Vp, 'lamprv': lp, 'z': z, 'step': step, 'parameterization': par, 'V0': V0, 'lam0': l0, 'tol': o['PF_TOL'], 'max_it': o['PF_MAX_IT']})
    V, conv, i, lam = out; v = vec(V); lam = scal(lam)
    if lam is None: return [('one loading parameter', lambda: False)]
    cl = held(v, V0) + [('iteration limit', t.mknot(e.maxit < t.lift(i))), ('the flag is 0 or 1', lambda: conv in (0, 1)), ('converged exactly when solved', e.solved(v, lam) if conv else t.mknot(e.solved(v, lam))),
                        ('solved start is returned after zero iterations', t.mkor(t.mknot(e.start()), t.eq0(t.lift(i))))]
    if t.lift(i) is t.ZERO: cl += [('no iteration, no change', Claim([NB], lambda k: v(k) - V0.num(k))), ('no iteration, same loading', Claim([], lambda: lam - scal(l0)))]
    return cl
cCorr = register(FunContract(cpf_corrector, None, {name(k, a): corr_args(k, a) for k, a in VARIANTS if DEEP or (k, a) != (1, True)}, post=corr_post, max_paths=600, callees=[('pypower.dSbus_dV', 'dSbus_dV'), ('pypower.cpf_p', 'cpf_p'), ('pypower.cpf_p_jac', 'cpf_p_jac')], loops={('pypower.cpf_corrector', 'cpf_corrector'): {('while', 0): corr_loop()}}))
CONTRACTS = [cP, cJ, cPred, cCorr]

# ---- at run time -----------------------------------------------------------------------------------
def polarof(V): return np.angle(V), np.abs(V)
def rt_functions(rng, k):
    nb = rng.randint(2, 8); t_ = rng.permutation(nb); a = rng.randint(0, nb); b = rng.randint(a + 1, nb + 1)
    pv, pq = np.sort(t_[1:a + 1]) if rng.rand() < .8 else t_[:0], np.sort(t_[b:])
    if len(pv) + len(pq) == 0: raise Skip()
    x = lambda: (rng.uniform(-1.5, 1.5, nb), rng.uniform(.6, 1.3, nb))
    (va, vm), (pa, pm) = x(), x(); lam, lp = rng.uniform(-1, 2, 2); step = rng.uniform(.01, .5); z = rng.randn(2 * nb + 1); par = rng.randint(1, 4)
    C = lambda m, a: m * np.exp(1j * a); pvpq = np.r_[pv, pq].astype(int); pv, pq = pv.astype(int), pq.astype(int)
    f = lambda va, vm, lam: float(np.squeeze(cpf_p(par, step, z, C(vm, va), lam, C(pm, pa), lp, pv, pq)))
    d = np.r_[(va - pa)[pvpq], (vm - pm)[pq], lam - lp]; zz = z[np.r_[pvpq, nb + pq, 2 * nb]]
    needclose(f(va, vm, lam), {1: abs(d[-1]) - step, 2: (d * d).sum() - step ** 2, 3: zz @ d - step}[par], 'step-length equation (%s)' % NAMES[par], 1e-9)
    g, s = cpf_p_jac(par, z, C(vm, va), lam, C(pm, pa), lp, pv, pq); h = 1e-6; E = np.eye(nb) * h
    q = [(f(va + E[i], vm, lam) - f(va - E[i], vm, lam)) / 2 / h for i in pvpq] + [(f(va, vm + E[i], lam) - f(va, vm - E[i], lam)) / 2 / h for i in pq]
    needclose(np.asarray(g, float).ravel(), np.array(q), 'gradient of the step length (%s)' % NAMES[par], 1e-6); needclose(np.squeeze(s), (f(va, vm, lam + h) - f(va, vm, lam - h)) / 2 / h, 'slope of the step length (%s)' % NAMES[par], 1e-6)
    return par
def cpf_cases(rng):
    while True:
        c = G.external_case(rng, isolated=False)
        if c['bus'].shape[0] - 0 > 2: break
    c['bus'][:, PD] *= .4; c['bus'][:, QD] *= .4; c['gen'][:, PG] *= .5
    c['branch'][:, BR_X] *= .7
    tg = {a: (b.copy() if hasattr(b, 'copy') else b) for a, b in c.items()}; s = rng.uniform(1.5, 3)
    tg['bus'][:, [PD, QD]] *= s * rng.uniform(.8, 1.2, (c['bus'].shape[0], 1)); tg['gen'][:, PG] *= s
    return c, tg
def rt_run(rng, k):
    import os, io, contextlib
    from pypower.runcpf import runcpf
    from pypower.ppoption import ppoption
    c, tg = cpf_cases(rng); par = rng.randint(1, 4); step = rng.choice([.05, .1, .2]); stop = ['NOSE', 'FULL', .35, .6][rng.randint(4)] if par > 1 else [.35, .6][rng.randint(2)]
    B, T_ = G.renumber(c), G.renumber(tg); S0 = G.scheduled(B); Sx = G.scheduled(T_) - S0
    if np.linalg.norm(Sx) == 0: raise Skip()
    with contextlib.redirect_stdout(io.StringIO()):
        try: r, ok = runcpf({a: (b.copy() if hasattr(b, 'copy') else b) for a, b in c.items()}, {a: (b.copy() if hasattr(b, 'copy') else b) for a, b in tg.items()},
                       ppoption(VERBOSE=0, OUT_ALL=0, CPF_PARAMETERIZATION=par, CPF_STEP=step, CPF_STOP_AT=stop))
        except Exception as e:
            if 'ingular' in str(e): raise Skip()
            raise
    if not ok: raise Skip()
    cp = r['cpf']; nb = B['bus'].shape[0]; Vc, Vp = [np.asarray(cp[n]) for n in ('V_c', 'V_p')]; lc, lp = [np.asarray(cp[n]).ravel() for n in ('lam_c', 'lam_p')]; n = Vc.shape[1]
    need(Vc.shape == (nb, n) and len(lc) == n and Vp.shape == Vc.shape and len(lp) == n, 'one column of voltages per point')
    need(np.isfinite(Vc).all() and np.isfinite(lc).all(), 'finite points'); needclose(cp['max_lam'], lc.max(), 'largest loading parameter'); need(lc[0] == 0, 'starts at the base case')
    on = {int(g[GEN_BUS]) for g in B['gen'] if g[GEN_STATUS] > 0}; ty = [int(x) for x in B['bus'][:, BUS_TYPE]]
    ref = [i for i in range(nb) if ty[i] == REF]; pv = [i for i in range(nb) if ty[i] == PV and i in on]; pq = [i for i in range(nb) if i not in ref and i not in pv]; pvpq = pv + pq
    vg = {int(g[GEN_BUS]): g[VG] for g in B['gen'] if g[GEN_STATUS] > 0}
    mis = lambda V, lam: G.injections(B, V) - S0 - lam * Sx
    for j in range(n):
        m = mis(Vc[:, j], lc[j]); e = np.r_[m[pvpq].real, m[pq].imag]
        if j == 0 and np.abs(e).max() >= 1e-7:      # the base case itself may have no power-flow solution
            from pypower.runpf import runpf
            with contextlib.redirect_stdout(io.StringIO()): good = runpf({a: (b.copy() if hasattr(b, 'copy') else b) for a, b in c.items()}, ppoption(VERBOSE=0, OUT_ALL=0))[1]
            if not good: raise Skip()
        need(np.abs(e).max() < 1e-7, 'power-flow equations at point %d (loading %.6g): mismatch %.3g' % (j, lc[j], np.abs(e).max()), base=c, target=tg)
        for i in ref + pv: needclose(abs(Vc[i, j]), vg[i], 'controlled magnitude', 1e-9)
        for i in ref: needclose(np.angle(Vc[i, j]), np.deg2rad(B['bus'][i, VA]), 'reference angle', 1e-9)
    ang = lambda a, b: np.angle(a * np.conj(b))
    for j in range(1, n):
        unk = lambda V, l, W, k: np.r_[ang(V, W)[pvpq], (abs(V) - abs(W))[pq], l - k]
        d = unk(Vc[:, j], lc[j], Vc[:, j - 1], lc[j - 1]); p = unk(Vp[:, j], lp[j], Vc[:, j - 1], lc[j - 1])
        z = np.linalg.norm(p)
        if j < n - 1: needclose(z, step, 'the prediction moves by the step length', 1e-7); st = step
        else: st = z
        if z > 1e-6:
            # direction of the solution curve
            u = p / z; th, vm = np.angle(Vc[:, j - 1]), abs(Vc[:, j - 1])
            def at(h):
                a, m = th.copy(), vm.copy(); a[pvpq] += h * u[:len(pvpq)]; m[pq] += h * u[len(pvpq):-1]
                e = mis(m * np.exp(1j * a), lc[j - 1] + h * u[-1]); return np.r_[e[pvpq].real, e[pq].imag]
            need(np.abs(at(1e-5) - at(-1e-5)).max() / 2e-5 < 1e-5, 'the prediction follows the tangent of the solution curve', base=c, target=tg)
        if j < n - 1:
            P = {1: abs(d[-1]) - step, 2: (d * d).sum() - step ** 2, 3: (p / z) @ d - step}[par]
            need(abs(P) < 1e-7, 'step-length equation (%s) at point %d: %.3g' % (NAMES[par], j, P), base=c, target=tg)
    lam = lc[-1]; rb, rg = r['bus'], r['gen']
    needclose(rb[:, PD], c['bus'][:, PD] + lam * (tg['bus'][:, PD] - c['bus'][:, PD]), 'demand at the last point'); needclose(rb[:, QD], c['bus'][:, QD] + lam * (tg['bus'][:, QD] - c['bus'][:, QD]), 'reactive demand at the last point')
    needclose(rb[:, VM] * np.exp(1j * np.deg2rad(rb[:, VA])), Vc[:, -1], 'reported voltages', 1e-9)
    refs = {int(c['bus'][i, BUS_I]) for i in ref}
    for i in range(rg.shape[0]):
        g = c['gen'][i]
        if g[GEN_STATUS] > 0 and int(g[GEN_BUS]) not in refs: needclose(rg[i, PG], g[PG] + lam * (tg['gen'][i, PG] - g[PG]), 'generation at the last point')
    return (par, n)
def rt_points(rng, k):
    """predictor and corrector called directly, from arbitrary points"""
    from pypower.makeYbus import makeYbus
    from scipy.sparse import csr_matrix
    c = G.internal_case(rng); nb = c['bus'].shape[0]; Y = csr_matrix(makeYbus(c['baseMVA'], c['bus'], c['branch'])[0]); par = rng.randint(1, 4); step = rng.uniform(.02, .2)
    ref = [0]; o = rng.permutation(np.arange(1, nb)); m = rng.randint(0, nb); pv, pq = np.sort(o[:m]), np.sort(o[m:]); pvpq = np.r_[pv, pq].astype(int)
    V = rng.uniform(.95, 1.05, nb) * np.exp(1j * rng.uniform(-.2, .2, nb)); lam = rng.uniform(0, 1); Sx = (rng.uniform(-1, 1, nb) + 1j * rng.uniform(-1, 1, nb)) * .3; Sb = V * np.conj(Y @ V) - lam * Sx
    Vprv, lamprv = (V, lam) if rng.rand() < .5 else (V * np.exp(-1j * rng.uniform(0, .05, nb)), lam - rng.uniform(.01, .1))
    z0 = np.zeros(2 * nb + 1); z0[-1] = 1
    V1, l1, z = cpf_predictor(V, lam, Y, Sx, pv, pq, step, z0.copy(), Vprv, lamprv, par)
    needclose(np.linalg.norm(z), 1, 'normalised tangent'); fix = np.setdiff1d(np.arange(nb), pvpq); fixm = np.setdiff1d(np.arange(nb), pq)
    need(not z[fix].any() and not z[nb + fixm].any(), 'no motion of held quantities')
    needclose(V1, (abs(V) + step * z[nb:2 * nb]) * np.exp(1j * (np.angle(V) + step * z[:nb])), 'predicted voltages'); needclose(l1, lam + step * z[-1], 'predicted loading')
    f = lambda h: (lambda W: W * np.conj(Y @ W))((abs(V) + h * z[nb:2 * nb]) * np.exp(1j * (np.angle(V) + h * z[:nb]))) - (lam + h * z[-1]) * Sx
    d = (f(1e-5) - f(-1e-5)) / 2e-5; need(np.abs(np.r_[d[pvpq].real, d[pq].imag]).max() < 1e-5, 'prediction along the tangent')
    opt = {'PF_TOL': 1e-8, 'PF_MAX_IT': rng.randint(0, 12), 'VERBOSE': 0}; V2 = V1.copy()
    W, ok, i, lw = cpf_corrector(Y, Sb, V2, ref, pv, pq, l1, Sx, V, lam, z, step, par, opt); lw = float(np.squeeze(lw))
    need(i <= opt['PF_MAX_IT'], 'iteration limit'); e = W * np.conj(Y @ W) - Sb - lw * Sx
    P = float(np.squeeze(cpf_p(par, step, z, W, lw, V, lam, pv, pq))); worst = np.abs(np.r_[e[pvpq].real, e[pq].imag, P]).max()
    if np.isfinite(worst): need(bool(ok) == (worst < 1e-8) or abs(worst - 1e-8) < 1e-12, 'corrected point: flag %s, largest residual %.3g' % (ok, worst), par=par)
    if ok: needclose(abs(W)[fixm], abs(V1)[fixm], 'held magnitudes', 1e-9); needclose(W[0], V1[0], 'reference voltage', 1e-9)
    return (par, int(ok))
RUNTIME = [RT('step-length functions', rt_functions, 60, 2000, ['cpf_p', 'cpf_p_jac'], 'up to 7 buses'),
           RT('prediction and correction', rt_points, 60, 2000, ['cpf_predictor', 'cpf_corrector'], 'up to 8 buses'),
           RT('continuation runs', rt_run, 25, 600, ['runcpf', 'cpf_default_callback'], 'up to 8 buses')]
ASSUMPTIONS = ['voltages are nonzero; angles are compared modulo 2 pi where a voltage is rebuilt from its angle', 'the arc-length slope in the loading parameter is 1 by convention when the loading equals the previous one (first tangent), where the derivative is zero',
               'the incoming tangent is zero at held angles and magnitudes (true of the start vector and of every tangent returned)', 'runcpf itself is exercised at run time only (bounded)']
TRUSTED = ['scipy.sparse.linalg.spsolve: the returned x satisfies A x = b (assumed contract)']
EXPLANATION = 'step-length equation and its derivatives in closed form, tangent and prediction, and the corrector loop by invariant: reported convergence means every power-flow equation and the step-length equation hold to the tolerance, with the reference voltage and controlled magnitudes as given'
LEVEL = 'other'
