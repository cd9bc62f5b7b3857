from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from pv.arrays import dimaxis, fixaxis, cataxis
from .net import *
from . import gen as G
from .gen import need, needclose
import numpy as np
from . import drv
from .drv import *
from .c10 import OPTS

def ac_world(alg, nref, brcols):
    W = {}
    def case(S):
        W['w'] = w = drv.World(S, nref, brcols)
        return [{'case': 'caller'}, OPTS(PF_ALG=alg)]
    def w_solver(name, npos):
        def f(interp, Ybus, Sbus, V0, *rest):
            w = W['w']
            V = SArray([w.nb], lambda i: t.ite(w.isref(i), V0.num(i), t.ite(w.ispv(i), t.absv(V0.num(i)) * t.expv(t.J * t.inp('Vang', (i,))), t.inp('Vsol', (i,), 'c'))), 'c')
            ok = 1 if interp.decide(t.pred('$solver_converged', ())) else 0
            log(interp, 'solver', [name, Ybus, Sbus, V0] + list(rest), V)
            w.ok = ok
            return V, ok, t.inp('iterations', ())
        return f
    opaque = {}
    def w_ybus(interp, base, bus, branch):
        w = W['w']
        Y = [SArray([a, w.nb], lambda i, j, n=n: t.inp(n, (i, j), 'c'), 'c', 'sparse') for n, a in (('Ybus', w.nb), ('Yf', w.nl), ('Yt', w.nl))]
        log(interp, 'makeYbus', [base, bus, branch], Y); return tuple(Y)
    def w_sbus(interp, base, bus, gen):
        w = W['w']; s = SArray([w.nb], lambda i: t.inp('Sbus', (i,), 'c'), 'c')
        log(interp, 'makeSbus', [base, bus, gen], s); return s
    def w_b(interp, base, bus, branch, a):
        w = W['w']; B = [SArray([w.nb, w.nb], lambda i, j, n=n: t.inp(n, (i, j)), 'f', 'sparse') for n in ('Bp', 'Bpp')]
        log(interp, 'makeB', [base, bus, branch, a], B); return tuple(B)
    def w_soln(interp, base, bus, gen, branch, *rest):
        w = W['w']
        r = [SArray([a, fixaxis(n)], lambda i, j, nm=nm: t.inp('%s.%d' % (nm, j), (i,)), 'f') for nm, a, n in (('sbus', w.nb, 13), ('sgen', w.ng, 21), ('sbranch', w.nl, 17))]
        log(interp, 'pfsoln', [base, bus, gen, branch] + list(rest), r); return tuple(r)
    def w_opts(interp, o=None, **k): return o
    def post(out, args, snap, ghost, it):
        w = W['w']
        cl = w.external(out, ghost) + w.entry(ghost, brcols)
        s, p, c, y, sb = [calls(ghost, n) for n in ('solver', 'pfsoln', 'int2ext', 'makeYbus', 'makeSbus')]
        if not all(len(x) == 1 for x in (s, p, c, y, sb)): return cl + [('one solve, one write-back', lambda: False)]
        s, p, c, y, sb = s[0], p[0], c[0], y[0], sb[0]
        cl.append(('success is the solver\'s', lambda: bool(out[1]) == bool(w.ok)))
        cl.append(('solver', lambda: s.args[0] == {1: 'newtonpf', 2: 'fdpf', 3: 'fdpf', 4: 'gausspf'}[alg]))
        eqm = lambda a, b: isinstance(a, SArray) and a.ndim == b.ndim and all(i.same(j) for i, j in zip(a.axes, b.axes))
        def same_arr(n, a, b):
            if not eqm(a, b): return [(n, lambda: False)]
            return [(n, Claim(list(b.axes), lambda *ix: a.num(*ix) - b.num(*ix)))]
        for call in (y, sb):
            cl += [(call.name + ' base', t.lift(call.args[0]) - w.base)] + w.same(call.name + ' bus', call.args[1], w.bus)
        cl += w.same('makeYbus branch', y.args[2], w.branch) + w.same('makeSbus gen', sb.args[2], w.gen)
        cl += same_arr('solver matrix', s.args[1], y.res[0]) + same_arr('solver injections', s.args[2], sb.res)
        V0 = s.args[3]
        cl += [('start angles', Claim([w.nb], lambda i: V0.num(i) * t.absv(w.bus.num(i, VM)) - t.absv(V0.num(i)) * w.bus.num(i, VM) * t.expv(t.J * w.bus.num(i, VA) * t.PI / 180)))]
        last = lambda i: A.nth(dimaxis('ng', lambda g: t.mkand(w.on(g), t.mknot(w.ispq(w.gb(g))), A.ixeq(w.gb(g), i))), -1)      # the last in-service generator at a controlled bus
        cl += [('set-points are the start magnitudes at controlled buses', Claim([w.nb], lambda i: t.br(t.mknot(w.ispq(i))) * t.br(A.any_over(w.ng, lambda g: t.mkand(w.on(g), A.ixeq(w.gb(g), i)))) * (t.absv(V0.num(i)) - w.gen.num(last(i), VG)))),
               ('case magnitudes elsewhere', Claim([w.nb], lambda i: t.br(w.ispq(i)) * (t.absv(V0.num(i)) - w.bus.num(i, VM))))]
        rest = s.args[4:]
        if alg in (2, 3):
            mb = calls(ghost, 'makeB')
            if len(mb) != 1: return cl + [('makeB called', lambda: False)]
            cl += same_arr("B'", rest[0], mb[0].res[0]) + same_arr("B''", rest[1], mb[0].res[1]) + w.same('makeB bus', mb[0].args[1], w.bus) + w.same('makeB branch', mb[0].args[2], w.branch) + [('makeB algorithm', lambda: mb[0].args[3] == alg), ('makeB base', t.lift(mb[0].args[0]) - w.base)]
            rest = rest[2:]
        for n, a, b in zip(('ref', 'pv', 'pq'), rest, (w.ref, w.pv, w.pq)): cl += same_arr('solver ' + n, a, b)
        cl.append(('options reach the solver', lambda: isinstance(rest[3], dict) and dict(rest[3]) == OPTS(PF_ALG=alg)))
        # write-back
        cl += [('write-back base', t.lift(p.args[0]) - w.base)] + w.same('write-back bus', p.args[1], w.bus) + w.same('write-back gen', p.args[2], w.gen) + w.same('write-back branch', p.args[3], w.branch)
        for n, a, b in zip(('Ybus', 'Yf', 'Yt', 'V', 'ref', 'pv', 'pq'), p.args[4:], list(y.res) + [s.res, w.ref, w.pv, w.pq]): cl += same_arr('write-back ' + n, a, b)
        f = c.args[0]
        cl += w.same('solved bus', f['bus'], p.res[0]) + w.same('solved gen', f['gen'], p.res[1]) + w.same('solved branch', f['branch'], p.res[2]) + [('base kept', t.lift(f['baseMVA']) - w.base)]
        return cl
    names = [drv.loadcase, drv.ext2int, drv.int2ext, drv.bustypes, drv.printpf, drv.savecase]
    def late(j): return lambda interp, *a, **k: W['w'].stubs()[j].callsite(interp, *a, **k)
    st = [stub(f, late(j)) for j, f in enumerate(names)] + [stub(ppoption, w_opts), stub(makeYbus, w_ybus), stub(makeSbus, w_sbus), stub(makeB, w_b), stub(pfsoln, w_soln),
          stub(newtonpf, w_solver('newtonpf', 0)), stub(fdpf, w_solver('fdpf', 0)), stub(gausspf, w_solver('gausspf', 0))]
    return case, post, st
CONTRACTS = []
for _a, _n, _c in ((1, 1, 17), (1, 2, 13), (2, 1, 17), (3, 1, 17), (4, 1, 17), (1, 1, 16)):
    _case, _post, _st = ac_world(_a, _n, _c)
    CONTRACTS.append(FunContract(runpf, None, {'algorithm %d, %d reference(s), %d columns' % (_a, _n, _c): _case}, post=_post, callees=_st, name='runpf(AC %d,%d,%d)' % (_a, _n, _c)))

# ---- run-time evaluation --------------------------------------------------------------------------
def case_for(rng, k):
    if k % 4 == 0:
        c = G.shipped(G.SHIPPED[(k // 4) % len(G.SHIPPED)])
    else: c = G.external_case(rng, brcols=[13, 17, 16, 21][k % 4], gencols=[21, 25][k % 2])
    if k % 8 != 0: c = {n: (np.array(v, float) if isinstance(v, np.ndarray) else v) for n, v in c.items()}
    return c
def ends(c, br, V, ix):
    f, t_ = ix[int(br[F_BUS])], ix[int(br[T_BUS])]
    a, b = G.branch_currents(br, V[f], V[t_])
    return V[f] * np.conj(a) * c['baseMVA'], V[t_] * np.conj(b) * c['baseMVA']
def judge_run(c0, r, tol, vm=True, qg=None):
    iso = set(c0['bus'][c0['bus'][:, 1] == 4, 0])
    bus, gen, br = r['bus'], r['gen'], r['branch']
    need(np.array_equal(bus[:, 0], c0['bus'][:, 0]) and np.array_equal(gen[:, 0], c0['gen'][:, 0]) and np.array_equal(br[:, :2], c0['branch'][:, :2]), 'rows or numbering changed')
    keep = [j for j in range(c0['bus'].shape[1]) if j not in (VM, VA, BUS_TYPE)]
    need(np.array_equal(bus[:, keep], c0['bus'][:, keep]), 'bus data changed', got=bus, case=c0)
    keep = [j for j in range(c0['gen'].shape[1]) if j not in (PG, QG)]
    need(np.array_equal(gen[:, keep], c0['gen'][:, keep]), 'generator data changed')
    keep = [j for j in range(c0['branch'].shape[1]) if j not in (PF, QF, PT, QT)]
    need(np.array_equal(br[:, keep], c0['branch'][:, keep]), 'branch data changed')
    gon = np.array([g[GEN_STATUS] > 0 and g[0] not in iso for g in c0['gen']])
    bon = np.array([b[BR_STATUS] > 0 and b[0] not in iso and b[1] not in iso for b in c0['branch']])
    need((gen[~gon][:, [PG, QG]] == 0).all(), 'out-of-service generators report output', gen=gen)
    need((br[~bon][:, [PF, QF, PT, QT]] == 0).all(), 'out-of-service branches report flow', branch=br)
    if not r['success']: return
    V = bus[:, VM] * np.exp(1j * np.deg2rad(bus[:, VA])); ix = {int(b[0]): i for i, b in enumerate(bus)}
    S = {b[0]: 0j for b in bus}
    for l, b in enumerate(br):
        if not bon[l]: continue
        sf, st = ends(c0, c0['branch'][l], V, ix)
        needclose(b[[PF, QF, PT, QT]], np.array([sf.real, sf.imag, st.real, st.imag]), 'flows of branch %d' % l, 1e-7, case=c0, voltages=V)
        S[b[0]] += sf; S[b[1]] += st
    for i, b in enumerate(bus):
        if b[0] in iso: continue
        S[b[0]] += V[i] * np.conj(complex(b[GS], b[BS]) * V[i])
        G_ = sum((complex(gen[g, PG], gen[g, QG]) for g in range(len(gen)) if gon[g] and gen[g, 0] == b[0]), 0j)
        d = abs(S[b[0]] - (G_ - complex(b[PD], b[QD])))
        need(d <= c0['baseMVA'] * tol * 2 + 1e-7, 'power balance at bus %d off by %g MVA' % (b[0], d), case=c0)
    refs = [b[0] for b in c0['bus'] if b[1] == 3 and any(gon[g] and gen[g, 0] == b[0] for g in range(len(gen)))]
    for g in range(len(gen)):
        if not gon[g]: continue
        i = ix[int(gen[g, 0])]
        if vm and c0['bus'][i, 1] in (2, 3): need(abs(abs(V[i]) - gen[g, VG]) < 1e-9, 'set-point of generator %d not held' % g, case=c0)
        if refs and gen[g, 0] not in refs: need(gen[g, PG] == c0['gen'][g, PG], 'real output of generator %d changed' % g)
    for b0, b in zip(c0['bus'], bus):
        if b[0] in refs: need(abs(np.exp(1j * np.deg2rad(b[VA] - b0[VA])) - 1) < 1e-9, 'reference angle moved')
def by_run(rng, k):
    c = case_for(rng, k)
    if k % 5 == 3: c['bus'][:, [PD, QD]] *= rng.uniform(1, 30)
    if k % 6 == 5: c['branch'][rng.randint(len(c['branch'])), BR_STATUS] *= 1
    c0 = {n: (v.copy() if isinstance(v, np.ndarray) else v) for n, v in c.items()}
    alg = [1, 1, 2, 3, 4][k % 5]; tol = [1e-8, 1e-6, 1e-4][k % 3]
    tol_eff = tol * (1.2 if alg in (2, 3) else 1)
    kw = dict(PF_ALG=alg, VERBOSE=0, OUT_ALL=0, PF_TOL=tol)
    if k % 7 == 0: kw.update(PF_MAX_IT=1, PF_MAX_IT_FD=2, PF_MAX_IT_GS=3)
    r, ok = runpf(c, ppoption(**kw))
    need(bool(ok) == bool(r['success']), 'success flags disagree')
    for n in ('bus', 'gen', 'branch'): need(np.array_equal(c[n], c0[n]), 'the caller\'s %s changed' % n)
    judge_run({n: (np.array(v, float) if isinstance(v, np.ndarray) else v) for n, v in c0.items()}, r, tol_eff)
    return (k, alg, len(c['bus']), bool(ok))
RUNTIME = [RT('power-flow runs', by_run, 110, 1000, ['runpf'], 'random networks up to 9 buses with isolated buses and outages, shipped cases')]
ASSUMPTIONS = ['loadcase, ext2int, int2ext, bustypes, makeYbus, makeSbus, makeB, the solvers and pfsoln by their contracts', 'reactive-limit enforcement off',  'set-points and start magnitudes positive; one or two reference buses with an in-service generator']
