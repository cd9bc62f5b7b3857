"""C21: the interior-point solver.  pips under contract: the state at every pass of the main loop is the
evaluation of the user's functions at the current point, the tested residuals are those of the optimality
conditions at that state, slacks and inequality multipliers stay positive, and success is reported only with all
four tests met; the multipliers are handed back against the rows they belong to."""
from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.loops import LoopContract
from pv.runner import RT, Skip
from pv.arrays import dimaxis, fixaxis, cataxis
from .net import *
from .drv import stub
from . import gen as G
from .gen import need, needclose
import os, sys
import numpy as np
import pypower.pips as PM
from pypower.pips import pips
from pypower.pplinsolve import pplinsolve
from pypower.qps_pips import qps_pips

from pv.npmodel import HOOK
from pv.interp import NAMING
from pv.verify import NAMED
from pv import solve
W = {}
INF10 = 10 ** 10
EPS = t.lift(float(np.finfo(float).eps))
def F_(x, return_hessian=False): raise NotImplementedError
def GH_(x): raise NotImplementedError
def HESS_(x, lmbda, cost_mult): raise NotImplementedError

def same(a, b):
    """the same vector, whatever it is called"""
    try: A.match_axes(a.axes[0], b.axes[0])
    except Exception: return False
    for g, c in A.generic_index(a.axes[0], 'g'):
        if t.norm(t.mul(t.br(c), t.add(t.lift(a.num(g)), t.mul(-1, t.lift(b.num(g)))))): return False
    return True

class Norms(object):
    """largest magnitude / largest entry of a vector: one number per content"""
    def __init__(self): self.l = []
    def of(self, x, path, name='norm'):
        x = snapshot(x)
        for y, n, m in self.l:
            if n == name and same(x, y): return m
        m = t.inp('%s#%d' % (name, len(self.l)), ()); ax = x.axes[0]; e = (lambda i: t.absv(x.num(i))) if name == 'norm' else (lambda i: x.num(i))
        if name == 'norm': m = t.absv(m)
        self.l.append((x, name, m))
        path.append(A.any_over(ax, lambda i: t.cmp_eq(e(i), m)))
        path.append(t.mknot(A.any_over(ax, lambda i: t.lt0(e(i) - m if name == 'min' else m - e(i)))))
        return m
def norms(interp):
    """numbers of the current path"""
    if not interp.ghost or not isinstance(interp.ghost[0], Norms): interp.ghost.insert(0, Norms())
    return interp.ghost[0]
def hooks():
    NAMING[:] = [lambda interp, v: A.named(v, 2) if interp.stack and interp.stack[-1] == ('pypower.pips', 'pips') else v]; NAMED[:] = [1]; A.NAMED_MODE[:] = [1]
    me = lambda: A.decide_hook.__self__
    HOOK['norm'] = lambda x: norms(me()).of(x, me().path)
    HOOK['extreme'] = lambda x, name: norms(me()).of(x, me().path, name)

# ---- the problem: any mixture of fixed, one-sided, boxed and free rows over nx variables and nA constraints ------
NX, NA, NH, NG_ = [dimaxis(d) for d in ('nx', 'nA', 'nh', 'ng')]
def rows(cond): return dimaxis('nx', cond)
def row_axis(A_): return cataxis([NX, NA]) if A_ else NX
def bound(name): return lambda r: t.inp(name + ('.A' if isinstance(r, tuple) and r[0] == 1 else '.x'), (r[1] if isinstance(r, tuple) else r,))
def lo(r): return t.inp('l' if isinstance(r, tuple) and r[0] == 1 else 'xmin', (r[1] if isinstance(r, tuple) else r,))
def hi(r): return t.inp('u' if isinstance(r, tuple) and r[0] == 1 else 'xmax', (r[1] if isinstance(r, tuple) else r,))
def le(a, b): return t.mknot(b < a)
def kinds(r):
    """which kind of row it is: equality, lower-bounded, upper-bounded, boxed (none: free)"""
    d = t.absv(hi(r) - lo(r)); B = t.q(INF10)
    eq = le(d, EPS)
    return {'eq': eq, 'gt': t.mkand(le(B, hi(r)), -B < lo(r)), 'lt': t.mkand(le(lo(r), -B), hi(r) < B), 'bx': t.mkand(t.mknot(eq), hi(r) < B, -B < lo(r))}
def sub(A_, k):
    if not A_: return dimaxis('nx', lambda i: kinds(i)[k])
    return cataxis([dimaxis('nx', lambda i: kinds((0, i))[k]), dimaxis('nA', lambda i: kinds((1, i))[k])])

def kinds_present(S, A_, which):
    for k in ('eq', 'lt', 'gt', 'bx'):
        c = A.any_over(sub(A_, k), lambda i: t.TRUE); S.pre.append(c if k in which else t.mknot(c))
def args(A_, nl, sc=False, which=None, **o):
    def f(S):
        W.clear(); hooks(); W['A'] = A_; W['nl'] = nl; W['sc'] = sc; W['n'] = 0
        nx = S.dim('nx', 1, 4); W['nx'] = nx
        S.pre.extend(nonempty(nx))
        M = l = u = None
        if A_:
            nA = S.dim('nA', 0, 4); M = S.array('A', [nA, nx], storage='sparse'); l = S.array('l', [nA]); u = S.array('u', [nA])
        x0, xmin, xmax = S.array('x0', [nx]), S.array('xmin', [nx]), S.array('xmax', [nx])
        opt = {k: S.scalar(k, 'p') for k in ('feastol', 'gradtol', 'comptol', 'costtol', 'cost_mult')}
        opt.update(max_it=S.scalar('maxit', 'p'), step_control=sc, verbose=0)
        m = opt['max_it']; S.pre += [t.mkor(t.mknot(0 < m), t.mknot(m < 1))]      # an integer
        W.update(M=M, x0=x0, opt=opt)
        if which is not None: kinds_present(S, A_, which)
        gh = hs = None
        if nl:
            for q, ax in (('h', NH), ('g', NG_)):
                S.dim('n' + q, 1 if q in nl else 0, 4 if q in nl else 0); c = A.any_over(ax, lambda i: t.TRUE); S.pre.append(c if q in nl else t.mknot(c))
            gh, hs = GH_, HESS_
        return [F_, x0, M, l, u, xmin, xmax, gh, hs, opt]
    return f

# ---- the user's functions: whatever they return, at whatever point they are asked
class Ev(object):
    """one evaluation of the user's functions"""
    def __init__(self, tag):
        self.tag = tag; nl = W['nl']
        self.f = t.inp('f' + tag, ()); self.df = SArray([W['nx']], lambda i: t.inp('df' + tag, (i,)))
        if nl:
            self.h = SArray([NH], lambda i: t.inp('h' + tag, (i,))); self.g = SArray([NG_], lambda i: t.inp('g' + tag, (i,)))
            self.dh = SArray([W['nx'], NH], lambda j, i: t.inp('dh' + tag, (j, i)), 'f', 'sparse') if 'h' in nl else None
            self.dg = SArray([W['nx'], NG_], lambda j, i: t.inp('dg' + tag, (j, i)), 'f', 'sparse') if 'g' in nl else None

def content(x, y): return t.norm(t.add(t.lift(x), t.mul(-1, t.lift(y)))) == {}
def st_f(interp, x, hess=False):
    e = Ev('#%d' % len(interp.ghost)); e.x = snapshot(x); e.kind = 'f'; interp.ghost.append(e)
    r = (e.f, e.df.copy())
    return r + (SArray([W['nx'], W['nx']], lambda i, j: t.inp('d2f' + e.tag, (i, j)), 'f', 'sparse'),) if hess else r
def st_gh(interp, x):
    e = Ev('#%d' % len(interp.ghost)); e.x = snapshot(x); e.kind = 'gh'; interp.ghost.append(e)
    return e.h.copy(), e.g.copy(), e.dh, e.dg
def st_hess(interp, x, lmbda, cost_mult):
    e = Ev('#%d' % len(interp.ghost))
    interp.side.append(('Hessian asked with the cost multiplier', lambda: cost_mult is W['opt']['cost_mult']))
    return SArray([W['nx'], W['nx']], lambda i, j: t.inp('Lxx' + e.tag, (i, j)), 'f', 'sparse')
def st_solve(interp, M, b, *a):
    """whatever the linear solver returns: success must not depend on it"""
    n = len(interp.ghost); interp.ghost.append('solve')
    return free('$step%d' % n, M.axes[1])
def free(name, ax, kind='r'):
    def fn(i):
        nm = name
        while isinstance(i, tuple): nm += '.%d' % i[0]; i = i[1]
        return t.inp(nm, (i,), kind) if not isinstance(i, int) else t.inp(nm + '[%d]' % i, (), kind)
    return SArray([ax], fn, 'f')
STUBS = [stub(F_, st_f), stub(GH_, st_gh), stub(HESS_, st_hess), stub(pplinsolve, st_solve)]

# ---- the optimality conditions at a state ---------------------------------------------------------------------
NEED = ('x', 'z', 'lam', 'mu', 'f', 'df', 'g', 'h', 'dg', 'dh', 'Lx', 'gamma', 'i', 'converged', 'eflag', 'hist', 'f0')
def state(fr):
    for n in NEED:
        if n not in fr.loc: raise Unsupported('pips has no local %s' % n)
    s = {n: snapshot(fr.loc[n]) if isinstance(fr.loc[n], SArray) else fr.loc[n] for n in NEED}
    return s
def has(interp, x): return interp.decide(A.any_over(x.axes[0], lambda i: t.TRUE))
def conditions(interp, s):
    o = W['opt']; N = norms(interp); P_ = interp.path
    nrm = lambda x: N.of(x, P_) if has(interp, x) else t.ZERO
    mx = lambda a, b: t.fn('max', a, b)
    maxh = N.of(s['h'], P_, 'max') if has(interp, s['h']) else t.ZERO
    dot_ = A.sum_over(s['z'].axes[0], lambda i: t.mul(s['z'].num(i), s['mu'].num(i)))
    nx_ = nrm(s['x'])
    nm = lambda e: A.named(e, 2)
    return [('feasible to the tolerance', nm(mx(nrm(s['g']), maxh) * t.power(1 + mx(nx_, nrm(s['z'])), -1)) < o['feastol']),
            ('stationary to the tolerance', nm(nrm(s['Lx']) * t.power(1 + mx(nrm(s['lam']), nrm(s['mu'])), -1)) < o['gradtol']),
            ('complementary to the tolerance', nm(dot_ * t.power(1 + nx_, -1)) < o['comptol']),
            ('cost settled to the tolerance', nm(t.absv(s['f'] - s['f0']) * t.power(1 + t.absv(s['f0']), -1)) < o['costtol'])]
def scalars_in(x): return [y for y in sorted(t.allterms(t.polyT(t.norm(x))), key=lambda y: y.s()) if y.op == 'in' and y.a[0] in t.DEFS and not y.a[1]]
def mentions(c, names): return any(y.op == 'in' and y.a[0] in names for y in t.allterms(c))
def plainly(x):
    """x with the definitions without index spelt out"""
    x = t.unfold(x, scalars=True)
    if x.op == 'fn' and x.a[0] in ('min', 'max') and len(x.a) == 3:
        a, b = x.a[1], x.a[2]
        return t.ite(a < b, a, b) if x.a[0] == 'min' else t.ite(a < b, b, a)
    return x
def extremes_in(x): return {y.a[0] for y in t.allterms(x) if y.op == 'in' and y.a[0].startswith(('min#', 'max#'))}
def step_facts(path, a):
    """what is known of a step length: 0 <= a <= 1 (each proved before it is used)"""
    u = plainly(a); rel = [c for c in path if mentions(c, extremes_in(u))]
    return [g for g, gu in ((t.mknot(a < t.ZERO), t.mknot(u < t.ZERO)), (t.mknot(1 < a), t.mknot(1 < u))) if solve.prove(rel, gu)]
def over(ax, goal):
    """goal(path, index, generic index variable) at every block of the axis"""
    def th():
        path = A.PATH[-1]
        for i, c in A.generic_index(ax, 'q'):
            v = A.leafof(i)
            if not goal(path + ([c] if c is not t.TRUE else []), i, [v]): return False
        return True
    return th
def positive(name, x):
    """every entry is positive: a step never goes all the way to the boundary"""
    x = snapshot(x)
    def goal(path, i, ivs):
        e = x.num(i); g = t.ZERO < t.lift(e)
        if solve.valid(solve.instances(t.norm(e), path, ivs), g): return True
        e = t.polyT(t.norm(e)); ss = scalars_in(e)
        if not ss: e = t.polyT(t.norm(t.unfold(e, indexed=True))); ss = scalars_in(e)
        facts = [f for a in ss for f in step_facts(path, a)]
        if len(ss) == 1 and len(facts) == 2:
            a = ss[0]; u = plainly(a); ex = extremes_in(u); rel = [c for c in path if mentions(c, ex)]
            body = t.norm(e); d = t.norm(t.add(t.subst(e, {}), t.ZERO))
            # e = p + a q: where q >= 0 the step only adds; where q < 0 the step length rule bounds it
            q = {}; p = {}
            for (sums, conds, atoms), k in d.items():
                at = dict(atoms)
                if at.get(a) == 1 and not sums: del at[a]; q[(sums, conds, frozenset(at.items()))] = k
                else: p[(sums, conds, atoms)] = k
            if any(a in t.allterms(t.polyT({m: k})) for m, k in list(p.items()) + list(q.items())): return False
            p, q = t.polyT(p), t.polyT(q); conds = [c for c in path if not (c.fv() - set(ivs)) and c.fv()]
            return (solve.prove(facts + conds + [t.mknot(q < t.ZERO)], t.ZERO < p + a * q, ivs) and
                    solve.prove(rel + conds + [q < t.ZERO], t.ZERO < p + u * q, ivs))
        inst = [c for c in solve.instances(t.norm(e), path, ivs) if c.fv() and c.fv() <= set(ivs)]
        return solve.prove(inst, t.ZERO < e, ivs)
    return [('%s stay positive' % name, over(x.axes[0], goal))]
def covers(z, h, lin):
    """slack plus constraint value is not negative on the linear rows"""
    z, h = snapshot(z), snapshot(h)
    def goal(path, i, ivs):
        e = t.add(z.num(i), h.num(i)); g = t.mknot(t.lift(e) < t.ZERO)
        if solve.valid(solve.instances(t.norm(e), path, ivs), g): return True
        facts = []; u = e
        for _ in range(4):
            for a in scalars_in(u): facts += [f for f in step_facts(path, a) if f not in facts]
            n = unfold_indexed(u)
            if n is u: break
            u = n
        inst = [c for c in solve.instances(t.norm(u), path, ivs) if c not in path and c.fv() <= set(ivs)] + [c for c in path if c.fv() and c.fv() <= set(ivs)]
        return solve.prove(facts + inst, t.mknot(u < t.ZERO), ivs)
    return [('slacks cover the linear rows', over(lin, goal))]
def unfold_indexed(u):
    """definitions without index (the step lengths) stay"""
    return t.unfold(u, indexed=True)


# ---- what the rows are ---------------------------------------------------------------------------------------------
def row(r, x):
    """row r of [I; A] times x"""
    if isinstance(r, tuple):
        if r[0] == 0: return x(r[1])
        return A.sum_over(NX, lambda j: t.mul(W['M'].num(r[1], j), x(j)))
    return x(r)
def coef(r, j):
    if isinstance(r, tuple):
        if r[0] == 0: return t.br(t.eqi(r[1], j))
        return W['M'].num(r[1], j)
    return t.br(t.eqi(r, j))
BLOCKS = [('lt', 1), ('gt', -1), ('bx', 1), ('bx', -1)]      # one-sided: row*sign <= bound*sign
def limit(k, sg, r): return hi(r) if sg > 0 else -lo(r)
def present(interp, k):
    ax = sub(W['A'], k); return interp.decide(A.any_over(ax, lambda i: t.TRUE))
class Rows(object):
    """the inequality (h) and equality (g) rows, block by block: axis, value at x, derivative"""
    def __init__(self, interp, gh):
        self.h = []; self.g = []
        if gh is not None:
            self.h.append(('nl', 0, NH, lambda i: gh.h.num(i), lambda j, i: gh.dh.num(j, i) if gh.dh is not None else t.ZERO))
            self.g.append(('nl', 0, NG_, lambda i: gh.g.num(i), lambda j, i: gh.dg.num(j, i) if gh.dg is not None else t.ZERO))
        def add(l, k, sg):
            for p, ax in enumerate([NX, NA] if W['A'] else [NX]):
                w = (lambda i, p=p: (p, i)) if W['A'] else (lambda i: i)
                l.append((k, sg, dimaxis('nA' if p else 'nx', lambda i, w=w: kinds(w(i))[k]), w))
        if present(interp, 'eq'): add(self.g, 'eq', 1)
        for k, sg in BLOCKS:
            if present(interp, k): add(self.h, k, sg)
    @staticmethod
    def axis(l):
        if not l: return fixaxis(0)
        return l[0][2] if len(l) == 1 else cataxis([b[2] for b in l])
    @staticmethod
    def at(l, i):
        b, r = (l[0], i) if len(l) == 1 else (l[i[0]], i[1])
        return b, r if b[0] == 'nl' else b[3](r)
    def value(self, l, x):
        def f(i):
            if not l: return t.ZERO
            b, r = self.at(l, i)
            if b[0] == 'nl': return b[3](r)
            if b[0] == 'eq': return row(r, x) - hi(r)
            return b[1] * row(r, x) - limit(b[0], b[1], r)
        return SArray([self.axis(l)], f, 'f')
    def deriv(self, l):
        def f(j, i):
            if not l: return t.ZERO
            b, r = self.at(l, i)
            return b[4](j, r) if b[0] == 'nl' else b[1] * coef(r, j)
        return SArray([W['nx'], self.axis(l)], f, 'f', 'sparse')
def vec_is(name, x, y):
    """x equals the array y"""
    ok = isinstance(x, SArray) and x.ndim == y.ndim and all(axis_eq(a, b) for a, b in zip(x.axes, y.axes))
    if not ok: return [(name + ': rows', lambda: False)]
    return [(name, Claim(y.axes, lambda *i: x.num(*i) - y.num(*i)))]
def axis_eq(a, b):
    try: A.match_axes(a, b); return True
    except Exception: return False
def no_rows(v): return isinstance(v, SArray) and (v.axes[0].isfix(0) or A.known_zero(A.Size(v.axes))) or isinstance(v, np.ndarray) and v.size == 0
def find_eval(interp, kind, x):
    for e in reversed(interp.ghost):
        if isinstance(e, Ev) and getattr(e, 'kind', '') == kind and same(e.x, x): return e
    return None
def evaluated(interp, s):
    """the state is the evaluation of the user's functions and of the rows at x"""
    cm = W['opt']['cost_mult']
    e = find_eval(interp, 'f', s['x'])
    if e is None: return [('cost evaluated at the point', lambda: False)]
    cl = [('cost at the point', t.cmp_eq(t.lift(s['f']), e.f * cm)), ('its gradient', Claim([W['nx']], lambda i: s['df'].num(i) - e.df.num(i) * cm))]
    gh = None
    if W['nl']:
        gh = find_eval(interp, 'gh', s['x'])
        if gh is None: return [('constraints evaluated at the point', lambda: False)]
    R = Rows(interp, gh)
    for nm, l, v, d in (('inequality', R.h, s['h'], s['dh']), ('equality', R.g, s['g'], s['dg'])):
        cl += vec_is(nm + ' constraints', v, R.value(l, s['x'].num)) if l else [(nm + ' constraints: none', lambda ok=no_rows(v): ok)]
        if d is None: cl.append(('%s constraints: no derivative, no rows' % nm, lambda l=l, nm=nm: not l or (len(l) == 1 and l[0][0] == 'nl' and (gh.dh if nm[0] == 'i' else gh.dg) is None)))
        else: cl += vec_is(nm + ' derivatives', d, R.deriv(l))
    lag = lambda j: e.df.num(j) * cm + A.sum_over(R.axis(R.g), lambda i: t.mul(R.deriv(R.g).num(j, i), s['lam'].num(i))) + A.sum_over(R.axis(R.h), lambda i: t.mul(R.deriv(R.h).num(j, i), s['mu'].num(i)))
    cl.append(('gradient of the Lagrangian', Claim([W['nx']], lambda j: s['Lx'].num(j) - lag(j))))
    return cl
def main_loop():
    def check(interp, fr):
        s = state(fr); interp.pips = s
        cl = evaluated(interp, s) + positive('slacks', s['z']) + positive('inequality multipliers', s['mu'])
        it = t.lift(s['i']); cl.append(('iteration limit', t.mknot(W['opt']['max_it'] < it)))
        if s['converged']: cl += conditions(interp, s)
        lin = linear_part(s)
        if lin is not None: cl += covers(s['z'], s['h'], lin)
        cl.append(('no failure so far', lambda: s['eflag'] is False))
        return cl
    def havoc(interp, fr):
        o = W['opt']; X = SArray([W['nx']], lambda i: t.inp('X', (i,)), 'f')
        e = Ev('H'); e.x = X; e.kind = 'f'; interp.ghost.append(e)
        gh = None
        if W['nl']: gh = Ev('H'); gh.x = X; gh.kind = 'gh'; interp.ghost.append(gh)
        R = Rows(interp, gh)
        z0, lam0 = fr.loc['z'], fr.loc['lam']
        L = fr.loc
        L['x'] = X; L['f'] = e.f * o['cost_mult']; L['df'] = SArray([W['nx']], lambda i: e.df.num(i) * o['cost_mult'], 'f')
        L['h'] = R.value(R.h, X.num); L['g'] = R.value(R.g, X.num)
        if W['nl']:
            L['hn'], L['gn'], L['dhn'], L['dgn'] = gh.h.copy(), gh.g.copy(), gh.dh, gh.dg
        if L['dh'] is not None: L['dh'] = R.deriv(R.h)
        if L['dg'] is not None: L['dg'] = R.deriv(R.g)
        L['z'] = free('Z', z0.axes[0], 'p'); L['mu'] = free('MU', z0.axes[0], 'p'); L['lam'] = free('LAM', lam0.axes[0])
        z, mu, lam = L['z'], L['mu'], L['lam']
        cm = o['cost_mult']
        Lx = SArray([W['nx']], lambda j: e.df.num(j) * cm + A.sum_over(R.axis(R.g), lambda i: t.mul(R.deriv(R.g).num(j, i), lam.num(i))) + A.sum_over(R.axis(R.h), lambda i: t.mul(R.deriv(R.h).num(j, i), mu.num(i))), 'f')
        L['Lx'] = A.named(Lx, 2)
        L['gamma'] = t.inp('gamma', ()); L['f0'] = t.inp('f0', ())
        for n in ('feascond', 'gradcond', 'compcond', 'costcond', 'L'):
            if n in L: L[n] = t.inp('any.' + n, ())
        it = t.inp('it', ()); interp.path.append(t.mknot(it < 0)); interp.path.append(t.mknot(o['max_it'] < it)); interp.path.append(t.mkor(t.mknot(it < o['max_it']), t.mknot(o['max_it'] < it + 1)))
        L['i'] = it; L['eflag'] = False; L['hist'] = []
        s = state(fr)
        lin = linear_part(s)
        if lin is not None: interp.path.append(t.mknot(A.any_over(lin, lambda i: z.num(i) + L['h'].num(i) < t.ZERO)))
        if interp.decide(t.pred('$converged', ())):
            L['converged'] = True
            interp.path.extend(c for n, c in conditions(interp, s))
        else: L['converged'] = False
    def leave(interp, fr): interp.pips = state(fr)
    lc = LoopContract(havoc, check, keep=('converged', 'eflag', 'i', 'dh', 'dg', 'dhn', 'dgn', 'hn', 'gn')); lc.leave = leave; lc.first = False
    return lc
def linear_part(s):
    if W['nl']: return None
    return s['h'].axes[0] if not s['h'].axes[0].isfix(0) else None

def post(out, args_, snap, ghost, interp):
    s = interp.pips; o = W['opt']; cm = o['cost_mult']
    if not isinstance(out, dict): return [('a solution is returned', lambda: False)]
    cl = [('the point', Claim([W['nx']], lambda i: out['x'].num(i) - s['x'].num(i))), ('its cost', t.cmp_eq(t.lift(out['f']) * cm, t.lift(s['f']))),
          ('iterations reported', t.cmp_eq(t.lift(out['output']['iterations']), t.lift(s['i']))), ('iteration limit', t.mknot(o['max_it'] < t.lift(out['output']['iterations'])))]
    ok = out['eflag'] is True or out['eflag'] == 1
    if ok: cl += conditions(interp, s)
    return cl + handed_back(interp, s, out['lmbda'])
def block_of(l, k, sg, r):
    p, i = r if isinstance(r, tuple) else (0, r)
    for n, b in enumerate(l):
        if b[0] == k and b[1] == sg: return i if len(l) == 1 else (n + p, i)
    return None
def handed_back(interp, s, lm):
    """each multiplier against its own row and side, un-scaled, those of slack rows zeroed"""
    o = W['opt']; cm = o['cost_mult']; R = Rows(interp, find_eval(interp, 'gh', s['x']) if W['nl'] else None)
    def mu(k, sg, r):
        i = block_of(R.h, k, sg, r)
        if i is None: return t.ZERO
        slack = t.mkand(s['h'].num(i) < -o['feastol'], s['mu'].num(i) < t.lift(1e-5))
        return t.ite(slack, t.ZERO, s['mu'].num(i)) / cm
    def lam(r):
        i = block_of(R.g, 'eq', 1, r)
        return t.ZERO if i is None else s['lam'].num(i) / cm
    def side(sg):
        def f(r):
            K = kinds(r); l = sg * lam(r); e = t.ite(t.mkand(K['eq'], t.ZERO < l), l, t.ZERO)
            return t.ite(K['bx'], mu('bx', sg, r), t.ite(K['lt' if sg > 0 else 'gt'], mu('lt' if sg > 0 else 'gt', sg, r), e))
        return f
    cl = []
    for nm, ax, wrap in (('lower', NX, 0), ('upper', NX, 0), ('mu_l', NA, 1), ('mu_u', NA, 1)):
        if nm not in lm: cl.append((nm + ' multipliers returned', lambda: False)); continue
        if wrap and not W['A']: cl.append((nm + ': none', lambda v=lm[nm]: no_rows(v))); continue
        f = side(1 if nm in ('upper', 'mu_u') else -1); w = (lambda i, wrap=wrap: (wrap, i)) if W['A'] else (lambda i: i)
        cl += vec_is(nm + ' multipliers', lm[nm], SArray([ax if wrap else W['nx']], lambda i, f=f, w=w: f(w(i)), 'f'))
    return cl
def make(A_, nl, which, **k):
    nm = ('rows and bounds' if A_ else 'bounds') + (', nonlinear ' + nl if nl else '') + (', step control' if k.get('sc') else '') + ': ' + (' '.join(which) or 'none')
    return FunContract(pips, None, {'any': args(A_=A_, nl=nl, which=which, **k)}, post=post, loops={('pypower.pips', 'pips'): {('while', 0): main_loop()}}, callees=STUBS, name='pips(%s)' % nm, max_paths=2000)
ALL4 = ('eq', 'lt', 'gt', 'bx')
CONTRACTS = [make(True, None, ('lt',)), make(True, None, ('gt',)), make(False, 'hg', ()),
             make(False, None, ('bx',)), make(False, None, ('lt',)), make(False, None, ('gt',)), make(True, None, ('eq',)), make(False, None, ('eq',)), make(False, None, ())]
if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv:
    CONTRACTS = [make(True, None, w) for w in (ALL4, ('bx',), ('eq', 'bx'), ('lt', 'gt'))] + [make(False, None, ALL4)] + [make(False, 'hg', ('lt',)), make(False, 'h', ()), make(False, 'g', ()), make(False, 'hg', (), sc=True)] + CONTRACTS
# ---- the real solver on random problems, judged by the optimality conditions alone -----------------------------------
def sides(rng, v, free=True):
    """limits around the value v: fixed, one-sided, boxed or free"""
    k = rng.integers(0, 5 if free else 4); d1, d2 = rng.uniform(0, 2), rng.uniform(0.01, 2); inf = np.inf if rng.random() < .5 else 1e10
    return [(v, v), (-inf, v + d1), (v - d1, inf), (v - d1, v + d2), (-inf, inf)][k]
def linear(rng, n, boxed=False, eq_max=None):
    xs = rng.normal(size=n) * 2
    xb = [sides(rng, v) if not boxed else (v - rng.uniform(.1, 3), v + rng.uniform(.1, 3)) for v in xs]
    m = int(rng.integers(0, 4)); A_ = rng.normal(size=(m, n)) * (rng.random((m, n)) < .8)
    rb = []
    neq = sum(a == b for a, b in xb)
    for v in A_.dot(xs):
        a, b = sides(rng, v)
        if a == b:
            if neq + 1 >= n: a, b = v - 1, v + 1
            else: neq += 1
        rb.append((a, b))
    xb = np.array(xb).reshape(n, 2); rb = np.array(rb).reshape(m, 2)
    return xs, xb[:, 0].copy(), xb[:, 1].copy(), A_, rb[:, 0].copy(), rb[:, 1].copy()
def kkt(x, lm, grad, A_, l, u, xmin, xmax, tol, nl=None, data={}):
    """the optimality conditions at (x, multipliers): feasibility, stationarity, sign, complementarity"""
    n = len(x); sc = 1 + np.abs(x).max(); r = grad.copy(); m = A_.shape[0]
    big = max([1.] + [np.abs(np.asarray(v)).max() for v in lm.values() if np.size(v)])
    todo = [('variable', x, xmin, xmax, lm['lower'], lm['upper'], np.eye(n)), ('row', A_.dot(x), l, u, lm['mu_l'], lm['mu_u'], A_)]
    for nm, v, a, b, ml, mu, J in todo:
        need(len(ml) == len(v) and len(mu) == len(v), '%s multipliers: one per %s' % (nm, nm), **data)
        for i in range(len(v)):
            need(v[i] >= a[i] - tol * sc * 10 and v[i] <= b[i] + tol * sc * 10, '%s %d within its limits' % (nm, i), value=v[i], lower=a[i], upper=b[i], **data)
            need(ml[i] >= -tol and mu[i] >= -tol, 'multipliers of %s %d are not negative' % (nm, i), lower=ml[i], upper=mu[i], **data)
            need(not (a[i] <= -1e10) or ml[i] == 0, '%s %d without lower limit has no lower multiplier' % (nm, i), multiplier=ml[i], **data)
            need(not (b[i] >= 1e10) or mu[i] == 0, '%s %d without upper limit has no upper multiplier' % (nm, i), multiplier=mu[i], **data)
            if a[i] != b[i]:
                for s_, g in ((ml[i], v[i] - a[i]), (mu[i], b[i] - v[i])):
                    need(s_ == 0 or s_ * abs(g) <= 1e-3 * sc * big, 'complementarity at %s %d' % (nm, i), multiplier=s_, slack=g, **data)
        r += J.T.dot(np.asarray(mu) - np.asarray(ml))
    if nl is not None:
        h, g, dh, dg = nl
        need(len(h) == 0 or h.max() <= tol * sc * 10, 'nonlinear inequalities hold', h=h, **data); need(len(g) == 0 or np.abs(g).max() <= tol * sc * 10, 'nonlinear equalities hold', g=g, **data)
        mi = np.asarray(lm.get('ineqnonlin', np.zeros(0))); me = np.asarray(lm.get('eqnonlin', np.zeros(0)))
        need(len(mi) == len(h) and len(me) == len(g), 'one multiplier per nonlinear constraint', **data)
        need((mi >= -tol).all() and (np.abs(mi * h) <= 1e-3 * sc * big).all(), 'sign and complementarity of nonlinear multipliers', mu=mi, h=h, **data)
        r += dh.dot(mi) + dg.dot(me)
    need(np.abs(r).max() <= 1e-4 * (1 + big), 'gradient of the Lagrangian vanishes', residual=r, **data)
def quiet(f, *a):
    import io, contextlib, warnings
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore'); return f(*a)
def rt_qp(rng, k):
    rng = np.random.default_rng(rng.randint(2 ** 31 - 1))
    from scipy.sparse import csr_matrix
    n = int(rng.integers(1, 6)); lp = rng.random() < .3
    xs, xmin, xmax, A_, l, u = linear(rng, n, boxed=lp)
    Q = rng.normal(size=(n, n)); H = np.zeros((n, n)) if lp else Q.dot(Q.T) + np.eye(n) * rng.uniform(.1, 2)
    c = rng.normal(size=n) * 3; c0 = c.copy(); opt = {'cost_mult': float(rng.choice([1, 1, .01, 100.]))} if rng.random() < .7 else {}
    if rng.random() < .3: opt['step_control'] = True
    lim = int(rng.integers(1, 6)) if rng.random() < .2 else None
    if lim is not None: opt['max_it'] = lim
    m = A_.shape[0]; o0 = dict(opt)
    As = csr_matrix(A_) if m else (None if rng.random() < .5 else csr_matrix((0, n)))
    la, ua = (l, u) if m else ((None, None) if As is None else (np.zeros(0), np.zeros(0)))
    Hs = None if lp and As is not None and rng.random() < .5 else csr_matrix(H)
    x0 = None if rng.random() < .6 else xs + rng.normal(size=n)
    data = dict(H=H, c=c, A=A_, l=l, u=u, xmin=xmin, xmax=xmax, opt=o0)
    x, f, ok, out, lm = quiet(qps_pips, Hs, c, As, la, ua, xmin, xmax, x0, opt)
    need(out['iterations'] <= (lim or 150), 'no more iterations than asked', iterations=out['iterations'], **data)
    if not ok:
        return
    needclose(f, 0.5 * x.dot(H).dot(x) + c0.dot(x), 'objective at the point returned', 1e-6, data=data)
    kkt(x, lm, H.dot(x) + c0, A_, l, u, xmin, xmax, 1e-6, data=data)
def rt_nlp(rng, k):
    rng = np.random.default_rng(rng.randint(2 ** 31 - 1))
    from scipy.sparse import csr_matrix
    n = int(rng.integers(2, 6)); xs, xmin, xmax, A_, l, u = linear(rng, n)
    xmin = np.where(xmin == xmax, xmin - 1, xmin); cm = float(rng.choice([1, 1, .1, 10]))
    if rng.random() < .5: A_ = A_[:0]; l = l[:0]; u = u[:0]
    eq = l == u; l = np.where(eq, l - 1, l)
    Q = rng.normal(size=(n, n)); Q = Q.dot(Q.T) + np.eye(n); b = rng.normal(size=n) * 2; w = rng.uniform(-1, 1, n)
    nh, ng = int(rng.integers(0, 3)), int(rng.integers(0, 2)); P = [rng.uniform(.2, 2, n) for _ in range(nh)]; R2 = [float((p * xs ** 2).sum() + rng.uniform(.05, 3)) for p in P]
    B = rng.normal(size=(ng, n)); ex = np.exp(.3 * xs)
    def f_fcn(x, return_hessian=False):
        f = .5 * x.dot(Q).dot(x) + b.dot(x) + np.exp(w * x).sum(); df = Q.dot(x) + b + w * np.exp(w * x)
        return (f, df, csr_matrix(Q + np.diag(w * w * np.exp(w * x)))) if return_hessian else (f, df)
    def parts(x):
        h = np.array([(p * x ** 2).sum() - r for p, r in zip(P, R2)]); g = B.dot(np.exp(.3 * x)) - B.dot(ex)
        dh = np.array([2 * p * x for p in P]).reshape(nh, n).T; dg = (B * (.3 * np.exp(.3 * x))).T.reshape(n, ng)
        return h, g, dh, dg
    def gh(x):
        h, g, dh, dg = parts(x); return h, g, csr_matrix(dh) if nh else None, csr_matrix(dg) if ng else None
    def hess(x, lmb, cost_mult=1):
        d = Q + np.diag(w * w * np.exp(w * x)); d = d * cost_mult
        for i in range(nh): d = d + lmb['ineqnonlin'][i] * 2 * np.diag(P[i])
        for i in range(ng): d = d + lmb['eqnonlin'][i] * np.diag(B[i] * .09 * np.exp(.3 * x))
        return csr_matrix(d)
    lim = int(rng.integers(1, 6)) if rng.random() < .2 else 150
    nonl = rng.random() < .8
    opt = {'cost_mult': cm, 'step_control': bool(rng.random() < .3), 'max_it': lim, 'verbose': 0}; m = A_.shape[0]
    data = dict(Q=Q, b=b, A=A_, l=l, u=u, xmin=xmin, xmax=xmax, opt=dict(opt), nh=nh if nonl else 0, ng=ng if nonl else 0)
    if not nonl: nh = ng = 0
    s = quiet(pips, f_fcn, xs + rng.normal(size=n) * .3, csr_matrix(A_) if m else None, l if m else None, u if m else None, xmin, xmax, gh if nonl else None, hess if nonl else None, opt)
    need(s['output']['iterations'] <= lim, 'no more iterations than asked', **data)
    if not s["eflag"]:
        return
    f, df = f_fcn(s['x']); needclose(s['f'], f, 'objective at the point returned', 1e-6, data=data)
    h, g, dh, dg = parts(s['x']) if nonl else (np.zeros(0), np.zeros(0), np.zeros((n, 0)), np.zeros((n, 0)))
    kkt(s['x'], s['lmbda'], df, A_, l, u, xmin, xmax, 1e-6, (h, g, dh, dg), data=data)
RUNTIME = [RT('linear and quadratic programs', rt_qp, 250, 8000, ['qps_pips', 'pips'], 'up to 5 variables and 3 rows'), RT('nonlinear programs', rt_nlp, 150, 5000, ['pips'], 'up to 5 variables, 3 rows, 2 nonlinear inequalities, 1 nonlinear equality')]
ASSUMPTIONS = ['the cost, constraint and Hessian functions are arbitrary (their derivatives are whatever they return); the linear solver returns arbitrary steps: nothing claimed on success depends on them', 'tolerances and the cost multiplier are positive, the iteration limit is a whole number',
    'when nonlinear constraints of a kind are given there is at least one of them', 'largest magnitude and largest entry of a vector: a number attained and not exceeded',
    'the mixtures of row kinds under contract are enumerated in the contract names (each over any number of variables and rows); other mixtures, the quadratic front end qps_pips and convergence itself are evaluated on the real code (labelled bounded, not counted as proved)',
    'each limit is either finite or beyond 1e10 with the usual meaning; exact real arithmetic (no numerical failure)']
EXPLANATION = 'pips under contract with an invariant of the main loop: at every pass cost, gradient, constraint values, derivatives and the gradient of the Lagrangian are those of the current point and multipliers, slacks and inequality multipliers are positive, slacks cover the linear rows; success is returned only with the four scaled residual tests met at the state returned; every multiplier handed back (lower, upper, mu_l, mu_u) is that of its own row and side, un-scaled by the cost multiplier, those of slack rows zeroed'
FILES = ['pips', 'qps_pips']
LEVEL = 'proof'
