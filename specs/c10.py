from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from pv.arrays import dimaxis, fixaxis, cataxis
from .net import *
from .c07 import masked
from . import gen as G
from .gen import need, needclose
import numpy as np
from pypower.dcpf import dcpf
from pypower.idx_bus import *

NB = dimaxis('nb')
typ = lambda i, *k: t.mkor(*[t.cmp_eq(t.inp('bt', (i,), 'e(1,2,3)'), t.q(x)) for x in k])
def dc_args(S):
    nb = S.dim('nb', 1, 5)
    S.inp('bt', (t.iv('i', 'nb'),), 'e(1,2,3)')
    B = S.array('B', [nb, nb], 'r', storage='sparse'); P = S.array('P', [nb]); Va0 = S.array('Va0', [nb])
    ref, pv, pq = [masked(nb, lambda i, k=k: typ(i, k))[0] for k in (3, 2, 1)]
    return [B, P, Va0, ref, pv, pq]
def dc_post(out, args, snap, ghost, it):
    B, P, Va0 = snap[:3]
    if not isinstance(out, SArray): return [('returns an angle vector', lambda: False)]
    o = snapshot(out)
    cl = [('one angle per bus', lambda: o.ndim == 1 and A.match_axes(o.axes[0], NB) is None),
          ('reference angles unchanged', Claim([NB], lambda i: t.br(typ(i, 3)) * (o.num(i) - Va0.num(i))))]
    if len(ghost) != 1: return cl + [('one linear solve', lambda: False)]
    s = ghost[0]; row = s.A.axes[0]
    # the residual of each controlled bus is a residual of the solved system
    def bal(i): return A.sum_over(NB, lambda j: B.num(i, j) * o.num(j)) - P.num(i)
    for b, k in ((0, 2), (1, 1)):
        cl.append(('power balance at %s buses' % {2: 'voltage-controlled', 1: 'load'}[k],
                   Claim([NB], lambda i, b=b, k=k: t.br(typ(i, k)) * (bal(i) - s.residual((b, i))))))
    return cl
DCPF = register(FunContract(dcpf, None, {'any': dc_args}, post=dc_post))
CONTRACTS = [DCPF]

# ---- the DC run: runpf / rundcpf with PF_DC, callees replaced by their contracts ----------------
from . import drv, c02, c03
from .drv import runpf, ppoption, calls, stub, log
def OPTS(**k):
    return dict(ppoption(VERBOSE=0, OUT_ALL=0, **k))
def dc_world(nref, brcols):
    W = {}
    def case(S):
        W['w'] = w = drv.World(S, nref, brcols)
        return [{'case': 'caller'}, OPTS(PF_DC=True)]
    def w_dcpf(interp, B, P, Va0, ref, pv, pq):
        w = W['w']
        Va = SArray([w.nb], lambda i: t.ite(w.isref(i), Va0.num(i) if isinstance(Va0, SArray) else t.ZERO, t.inp('Vanew', (i,))), 'f')
        log(interp, 'dcpf', [B, P, Va0, ref, pv, pq], Va)
        return Va
    def w_opts(interp, o=None, **k): return o
    def post(out, args, snap, ghost, it):
        w = W['w']
        cl = w.external(out, ghost) + w.entry(ghost, brcols)
        d, c = calls(ghost, 'dcpf'), calls(ghost, 'int2ext')
        if len(d) != 1 or len(c) != 1: return cl + [('one DC solve', lambda: False)]
        B, P, Va0, ref, pv, pq = d[0].args; Va = d[0].res
        Bb, Bf, Pbi, Pfi = spec_makeBdc(w.base, w.bus, w.branch)
        Sb = spec_makeSbus(w.base, w.bus, w.gen)
        f = lambda i: t.real(Sb.num(i)) - Pbi.num(i) - w.bus.num(i, GS) / w.base
        cl += [('system matrix', Claim([w.nb, w.nb], lambda i, j: B.num(i, j) - Bb.num(i, j))), ('injections', Claim([w.nb], lambda i: P.num(i) - f(i))),
               ('start angles', Claim([w.nb], lambda i: Va0.num(i) - w.bus.num(i, VA) * t.PI / 180)),
               ('bus lists', lambda: ref.axes[0].same(w.ref.axes[0]) and pv.axes[0].same(w.pv.axes[0]) and pq.axes[0].same(w.pq.axes[0]))]
        if calls(ghost, 'bustypes'): cl += w.same('classified bus', calls(ghost, 'bustypes')[0].args[0], w.bus)
        p = c[0].args[0]
        bus, gen, branch = p['bus'], p['gen'], p['branch']
        cl += w.same('solved bus', bus, w.bus, (VM, VA)) + w.same('solved gen', gen, w.gen, (PG,)) + w.same('solved branch', branch, w.branch, (PF, QF, PT, QT))
        fl = lambda l: (A.sum_over(w.nb, lambda j: Bf.num(l, j) * Va.num(j)) + Pfi.num(l)) * w.base
        cl += [('flat magnitudes', Claim([w.nb], lambda i: bus.num(i, VM) - 1)), ('angles', Claim([w.nb], lambda i: bus.num(i, VA) * t.PI / 180 - Va.num(i))),
               ('flows', Claim([w.nl], lambda l: branch.num(l, PF) - fl(l))), ('end flows opposite', Claim([w.nl], lambda l: branch.num(l, PF) + branch.num(l, PT))),
               ('no reactive flow', Claim([w.nl], lambda l: branch.num(l, QF))), ('no reactive flow at the to end', Claim([w.nl], lambda l: branch.num(l, QT)))]
        for k, r in enumerate(w.refs):
            tot = A.sum_over(w.ng, lambda g: t.br(t.mkand(w.on(g), A.ixeq(w.gb(g), r))) * gen.num(g, PG)) - w.bus.num(r, PD) - w.bus.num(r, GS)
            cl.append(('balance at reference bus %d' % k, tot - (A.sum_over(w.nb, lambda j: Bb.num(r, j) * Va.num(j)) + Pbi.num(r)) * w.base))
        cl.append(('other generators keep their output', Claim([w.ng], lambda g: t.mul(*[t.br(t.mknot(t.mkand(w.on(g), A.ixeq(w.gb(g), r)))) for r in w.refs]) * (gen.num(g, PG) - w.gen.num(g, PG)))))
        # exactly one generator moves at each reference bus: two different ones cannot both have moved
        for k, r in enumerate(w.refs):
            ax = dimaxis('ng', lambda g, r=r: t.mkand(w.on(g), A.ixeq(w.gb(g), r)))
            first = A.nth(ax, 0)
            cl.append(('one generator moves at reference bus %d' % k, Claim([w.ng], lambda g, r=r, first=first: t.br(t.mkand(w.on(g), A.ixeq(w.gb(g), r), t.mknot(t.eqi(g, first)))) * (gen.num(g, PG) - w.gen.num(g, PG)))))
        cl.append(('a DC run reports success', lambda: out[1] in (1, True)))
        return cl
    def callees():
        w = W.get('w')
        return []
    names = [drv.loadcase, drv.ext2int, drv.int2ext, drv.bustypes, drv.printpf, drv.savecase]
    class L(object): pass
    def late(j): return lambda interp, *a, **k: W['w'].stubs()[j].callsite(interp, *a, **k)
    st = [stub(f, late(j)) for j, f in enumerate(names)] + [stub(drv.dcpf, w_dcpf), stub(ppoption, w_opts), c02.CONTRACTS[0], c03.CONTRACTS[0]]
    return case, post, st
for _n, _c in ((1, 17), (2, 17), (1, 13)):
    _case, _post, _st = dc_world(_n, _c)
    CONTRACTS.append(FunContract(runpf, None, {'DC run, %d reference(s), %d columns' % (_n, _c): _case}, post=_post, callees=_st, name='runpf(DC %d,%d)' % (_n, _c)))

# ---- run-time evaluation -----------------------------------------------------------------------
from pypower.rundcpf import rundcpf
from pypower.makeBdc import makeBdc
def by_solver(rng, k):
    nb = rng.randint(2, 10)
    B = rng.uniform(-5, 5, (nb, nb)) + np.diag(rng.uniform(20, 40, nb))
    import scipy.sparse as sp
    perm = rng.permutation(nb); nr = rng.randint(1, min(3, nb))
    ref, rest = np.sort(perm[:nr]), perm[nr:]
    npv = rng.randint(0, len(rest) + 1); pv, pq = np.sort(rest[:npv]), np.sort(rest[npv:])
    P = rng.uniform(-2, 2, nb); Va0 = rng.uniform(-1, 1, nb)
    P0, V0 = P.copy(), Va0.copy()
    Va = dcpf(sp.csr_matrix(B), P, Va0, ref, pv, pq)
    need(np.array_equal(P, P0) and np.array_equal(Va0, V0), 'inputs changed')
    needclose(Va[ref], V0[ref], 'reference angles', 1e-13)
    needclose((B.dot(Va) - P)[rest], np.zeros(len(rest)), 'balance', 1e-8, B=B, P=P)
    return (nb, nr, npv)
def dcmodel(c):
    """DC injections, from-end flows (MW) by definition"""
    def flow(br, Va):
        if br[BR_STATUS] <= 0: return 0.0
        i = {int(b[0]): j for j, b in enumerate(c['bus'])}
        a = br[TAP] if br[TAP] else 1.0
        return (Va[i[int(br[F_BUS])]] - Va[i[int(br[T_BUS])]] - np.deg2rad(br[SHIFT])) / br[BR_X] / a * c['baseMVA']
    return flow
def by_run(rng, k):
    c = G.shipped(G.SHIPPED[k % len(G.SHIPPED)]) if k % 4 == 0 else G.external_case(rng, brcols=[13, 17, 16, 21][k % 4])
    c = {n: (np.array(v, float) if isinstance(v, np.ndarray) else v) for n, v in c.items()}
    if k % 3 == 1 and len(c['gen']) > 2:      # several generators at the reference
        r = c['bus'][c['bus'][:, 1] == 3, 0][0]; c['gen'][rng.rand(len(c['gen'])) < .4, 0] = r
        on = set(c['gen'][c['gen'][:, 7] > 0, 0]); 
        if r not in on: c['gen'][0, 0] = r; c['gen'][0, 7] = 1
    iso = set(c['bus'][c['bus'][:, 1] == 4, 0])
    c0 = {n: (v.copy() if isinstance(v, np.ndarray) else v) for n, v in c.items()}
    r, ok = rundcpf(c, ppoption(VERBOSE=0, OUT_ALL=0))
    need(ok == 1 and r['success'] == 1, 'a DC run does not report success')
    for n in ('bus', 'gen', 'branch'): need(np.array_equal(c[n], c0[n]), 'the caller\'s %s changed' % n)
    bus, gen, br = r['bus'], r['gen'], r['branch']
    need(bus.shape[0] == c0['bus'].shape[0] and np.array_equal(bus[:, 0], c0['bus'][:, 0]) and np.array_equal(gen[:, 0], c0['gen'][:, 0]), 'rows or numbering changed')
    live = np.array([b not in iso for b in bus[:, 0]])
    need((bus[live, VM] == 1).all(), 'magnitudes not flat')
    Va = np.deg2rad(bus[:, VA]); flow = dcmodel(c0)
    inj = {b: 0.0 for b in bus[:, 0]}
    for l, b in enumerate(br):
        on = c0['branch'][l, BR_STATUS] > 0 and b[F_BUS] not in iso and b[T_BUS] not in iso
        f = flow(c0['branch'][l], Va) if on else 0.0
        needclose(b[[PF, PT, QF, QT]], np.array([f, -f, 0, 0]), 'flows of branch %d' % l, 1e-7, case=c0)
        inj[b[F_BUS]] += f; inj[b[T_BUS]] -= f
    gon = np.array([g[7] > 0 and g[0] not in iso for g in c0['gen']])
    for g in range(len(gen)):
        if not gon[g]: need(gen[g, PG] == 0 and gen[g, QG] == 0, 'out-of-service generator reports output')
    moved = [g for g in range(len(gen)) if gon[g] and abs(gen[g, PG] - c0['gen'][g, PG]) > 1e-9]
    for i, b in enumerate(bus):
        if b[0] in iso: continue
        s = sum(gen[g, PG] for g in range(len(gen)) if gon[g] and gen[g, 0] == b[0]) - b[PD] - b[GS]
        needclose(np.array(s), np.array(inj[b[0]]), 'balance at bus %d' % b[0], 1e-6, case=c0)
    refs = [b[0] for b in c0['bus'] if b[1] == 3 and any(gon[g] and gen[g, 0] == b[0] for g in range(len(gen)))]
    if refs:
        need(all(gen[g, 0] in refs for g in moved) and len(moved) <= len(refs), 'generators other than the slack moved', case=c0, moved=moved)
        for b0, b in zip(c0['bus'], bus):
            if b[0] in refs: needclose(np.exp(1j * np.deg2rad(b[VA])), np.exp(1j * np.deg2rad(b0[VA])), 'reference angle', 1e-9)
    return (k, len(bus), len(gen))
RUNTIME = [RT('dcpf on random systems', by_solver, 80, 800, ['dcpf'], 'up to 9 buses'), RT('DC runs', by_run, 60, 600, ['rundcpf', 'runpf'], 'random networks up to 9 buses, shipped cases')]
ASSUMPTIONS = ['internal-numbering callee contracts (ext2int, int2ext, loadcase, bustypes) are assumed here; makeBdc and makeSbus by their contracts (C02, C03)',
               'one or two reference buses, each with an in-service generator', 'the linear solver returns a solution (assumed contract)']
