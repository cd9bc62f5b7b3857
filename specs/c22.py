"""C22: what the OPF solvers report is the optimiser's solution, in engineering units and at the element it belongs to."""
from pv.verify import FunContract, Claim, snapshot
from pv.runner import RT, Skip
from pv import terms as t, arrays as A
from pv.arrays import SArray, Size, dimaxis, fixaxis, cataxis
from .net import *
from .c15 import cost_table, WID
from .opfnet import opf
from .drv import stub, log, calls
from .c28 import same, V
from .c20 import same_size
from . import gen as G
from .gen import need, needclose
import numpy as np
from pypower.pipsopf_solver import pipsopf_solver
from pypower.dcopf_solver import dcopf_solver
from pypower.update_mupq import update_mupq
from pypower.opf_execute import opf_execute
from pypower.opf_costfcn import opf_costfcn
from pypower.opf_consfcn import opf_consfcn
from pypower.opf_hessfcn import opf_hessfcn
from pypower.opf_model import opf_model
from pypower.pips import pips
from pypower.util import sub2ind
from pypower.qps_pypower import qps_pypower
from pypower.makeYbus import makeYbus
from pypower.ppoption import ppoption
from pypower.idx_cost import *
from pypower.idx_bus import *
from pypower.idx_gen import *
from pypower.idx_brch import *

GW = {}
def block(m, part, names):
    """index of the named blocks of a kind"""
    P = getattr(m, part); at = []
    for n, ax in names:
        P['idx']['i1'][n] = Size(at) if at else 0; at = at + ([] if ax.isfix(0) else [ax])
        P['idx']['iN'][n] = Size(at) if at else 0; P['idx']['N'][n] = Size([ax]) if not ax.isfix(0) else 0; P['order'].append(n)
    P['N'] = Size(at) if at else 0; P['NS'] = len(names)
def unb(S, n, ax, sgn):
    """bounds, some of them absent"""
    return SArray([ax], lambda i: t.ite(t.pred(n + '.free', (i,) if not isinstance(i, tuple) else i), t.INF if sgn > 0 else -t.INF, t.inp(n, (i,) if not isinstance(i, tuple) else i)), 'f')
def limited(w): return lambda l: t.mkand(t.mknot(t.cmp_eq(w.branch.num(l, RATE_A), t.ZERO)), t.lt0(w.branch.num(l, RATE_A) - t.q(10 ** 10)))
def ac_world(S, y=True, z=True):
    w = opf(S, y=y, z=z, user=False, model=(1, 2) if y else (2,)); w.S = S; m = w.om
    nb, ng, nl = w.nb, w.ng, w.nl
    w.bus = bus_table(S, nb, 17); w.gen = gen_table(S, ng, ncols=25, cols={7: ('const', 1)}); w.branch = branch_table(S, nl, ncols=21, cols={10: ('const', 1)})
    if not hasattr(w, 'gencost'): pass
    m.ppc.update(bus=w.bus, gen=w.gen, branch=w.branch); w.ppc0 = snapshot(m.ppc)
    block(m, 'nln', [('Pmis', nb), ('Qmis', nb), ('Sf', nl), ('St', nl)])
    w.nlin = S.dim('nlin', 1, 4)
    w.A = S.array('A', [w.nlin, w.xa], storage='sparse'); w.l = S.array('l', [w.nlin]); w.u = S.array('u', [w.nlin])
    w.xmin, w.xmax = S.array('xmin', [w.xa]), S.array('xmax', [w.xa])
    w.Y = [S.array('Ybus', [nb, nb], 'c', storage='sparse'), S.array('Yf', [nl, nb], 'c', storage='sparse'), S.array('Yt', [nl, nb], 'c', storage='sparse')]
    w.il = A.find(SArray([nl], limited(w), 'b')); w.ila = w.il.axes[0]
    eqn = cataxis([nb, nb]); ine = cataxis([w.ila, w.ila])
    w.lam = {'eqnonlin': S.array('lam.eq', [eqn]), 'ineqnonlin': S.array('lam.in', [ine]), 'mu_l': S.array('lam.mul', [w.nlin]), 'mu_u': S.array('lam.muu', [w.nlin]),
             'lower': S.array('lam.lo', [w.xa]), 'upper': S.array('lam.up', [w.xa])}
    w.f = S.scalar('f'); w.info = S.scalar('eflag')
    S.pre.append(A.any_over(nb, lambda i: t.cmp_eq(w.bus.num(i, BUS_TYPE), t.q(3))))
    if y: S.pre.append(A.any_over(w.gencost.axes[0], lambda r: t.cmp_eq(w.gencost.num(r, MODEL), t.q(1))))
    w.probe = S.array('xprobe', [w.xa])
    return w
def ac_case(**kw):
    def f(S):
        w = ac_world(S, **kw); GW['w'] = w
        w.opt = ppoption(VERBOSE=0, OUT_ALL=0)
        return [w.om, w.opt], {}
    return f
def late(f): return lambda interp, *a, **k: f(GW['w'], interp, *a, **k)
TOK = lambda name, n: tuple('%s result %d' % (name, i) for i in range(n))
def st_pips(w, interp, fcn, x0, A_, l, u, xmin, xmax, gh, hess, opt):
    log(interp, 'pips', [x0, A_, l, u, xmin, xmax, opt])
    # the three callbacks are the model's own functions, whatever the point
    r1 = interp.call(fcn, [w.probe], {}); r2 = interp.call(fcn, [w.probe], {'return_hessian': True})
    r3 = interp.call(gh, [w.probe], {}); r4 = interp.call(hess, [w.probe, 'multipliers', 'multiplier of the cost'], {})
    interp.ghost.append(('callbacks', r1, r2, r3, r4))
    return {'x': w.x.copy(), 'f': w.f, 'eflag': w.info, 'lmbda': {k: v.copy() for k, v in w.lam.items()}, 'output': {'message': 'solver output'}}
def tok(name, n):
    def f(w, interp, *a, **k):
        log(interp, name, list(a) + [k]); return TOK(name, n)
    return late(f)
STUBS_AC = [stub(opf_model.linear_constraints, late(lambda w, it, om: (w.A.copy(), w.l.copy(), w.u.copy()))), stub(opf_model.getv, late(lambda w, it, om, *a: (w.x.copy(), w.xmin.copy(), w.xmax.copy()))),
            stub(makeYbus, late(lambda w, it, *a: (log(it, 'makeYbus', a), tuple(y.copy() for y in w.Y))[1])), stub(pips, late(st_pips)),
            stub(sub2ind, lambda interp, shape, I, J, *a: A.Somewhere(I.axes[0])), stub(opf_costfcn, tok('opf_costfcn', 3)), stub(opf_consfcn, tok('opf_consfcn', 4)), stub(opf_hessfcn, tok('opf_hessfcn', 1))]
def table(name, x, y, new):
    """claims: the table x is y with the given columns replaced"""
    if not isinstance(x, SArray) or x.ndim != 2 or x.axes[1].kind != 'fix' or x.axes[1].n != y.axes[1].n or A.match_axes(x.axes[0], y.axes[0]) is not None: return [(name + ' table has its shape', lambda: False)]
    return [('%s column %d' % (name, j), Claim([y.axes[0]], lambda i, j=j: x.num(i, j) - (new[j](i) if j in new else y.num(i, j)))) for j in range(y.axes[1].n)]
def rowcopy(M, il, ila): return SArray([ila, M.axes[1]], lambda k, j: M.num(k, j), M.dtype if hasattr(M, 'dtype') else 'c')
def ac_post(out, args_, snap, ghost, it):
    w = GW['w']; nb, ng, nl, base = w.nb, w.ng, w.nl, w.base; cl = []
    if not (isinstance(out, tuple) and len(out) == 3 and isinstance(out[0], dict) and isinstance(out[2], dict)): return [('results, success, raw', lambda: False)]
    r, ok, raw = out
    bus0, gen0, br0 = w.ppc0['bus'], w.ppc0['gen'], w.ppc0['branch']
    # the problem solved is the model's
    P = calls(ghost, 'pips')
    if len(P) != 1: return [('one run of the optimiser', lambda: False)]
    a = P[0].args
    for n, x, y in (('A', a[1], w.A), ('l', a[2], w.l), ('u', a[3], w.u), ('xmin', a[4], w.xmin), ('xmax', a[5], w.xmax)): cl += same('problem ' + n, x, y)
    tolerances = (('feastol', 'PDIPM_FEASTOL', 'OPF_VIOLATION'), ('gradtol', 'PDIPM_GRADTOL', None), ('comptol', 'PDIPM_COMPTOL', None), ('costtol', 'PDIPM_COSTTOL', None))
    cl.append(('tolerances', lambda: all(a[6].get(k) == (w.opt[o] or (w.opt[d] if d else w.opt[o])) for k, o, d in tolerances)))
    Yb, Yf, Yt = w.Y
    yb = calls(ghost, 'makeYbus')
    if not yb: cl.append(('admittances built', lambda: False))
    for c in yb:
        cl.append(('admittances from the base', t.lift(c.args[0]) - base)); cl += same('admittances of the bus table', c.args[1], bus0) + same('admittances of the branch table', c.args[2], br0)
    for n, na, first in (('opf_costfcn', 2, 1), ('opf_consfcn', 1, 1), ('opf_hessfcn', 1, 3)):
        cs = calls(ghost, n); cl.append((n + ' is the callback', lambda cs=cs, na=na: len(cs) == na))
        for c in cs:
            kw = c.args[-1]; p = c.args[:-1]
            cl += same(n + ' point', p[0], w.x if False else w.probe)
            if n == 'opf_costfcn': continue
            k = 2 if n == 'opf_consfcn' else 3
            if len(p) < k + 5: cl.append((n + ' arguments', lambda: False)); continue
            cl += same(n + ' Ybus', p[k], Yb) + same(n + ' Yf', p[k + 1], SArray([w.ila, nb], lambda q, j: Yf.num(q, j), 'c')) + same(n + ' Yt', p[k + 2], SArray([w.ila, nb], lambda q, j: Yt.num(q, j), 'c'))
            il = p[k + 4]
            cl += same(n + ' limited branches', il, w.il)
            if n == 'opf_hessfcn': cl.append(('multipliers reach the Hessian', lambda p=p, k=k: p[1] == 'multipliers' and p[k + 5] == 'multiplier of the cost'))
    cb = [g for g in ghost if isinstance(g, tuple) and g and g[0] == 'callbacks']
    cl.append(('callbacks return the functions\' values', lambda: len(cb) == 1 and cb[0][1] == TOK('opf_costfcn', 3) and cb[0][2] == TOK('opf_costfcn', 3) and cb[0][3] == TOK('opf_consfcn', 4) and cb[0][4] == TOK('opf_hessfcn', 1)))
    hs = calls(ghost, 'opf_costfcn')
    cl.append(('the cost callback passes on whether the Hessian is wanted', lambda: [bool((list(c.args[2:-1]) + [c.args[-1].get('return_hessian', False)])[0]) for c in hs] == [False, True]))
    # the results
    lam = w.lam; get = w.get
    names = [b[0] for b in w.blocks]
    L = lambda k, n, i: lam[k].num((names.index(n), i))
    va = lambda i: get('Va', i); vm = lambda i: get('Vm', i)
    Vc = lambda i: vm(i) * t.expv(t.J * va(i))
    gb = lambda g: row(nb, w.gen, GEN_BUS, g)
    flow = lambda Y, c: (lambda l: Vc(row(nb, w.branch, c, l)) * t.conj(A.sum_over(nb, lambda j: Y.num(l, j) * Vc(j))) * base)
    re = lambda f: (lambda l: t.real(f(l))); im = lambda f: (lambda l: t.imag(f(l)))
    mu = lambda b: (lambda l: t.br(limited(w)(l)) * 2 * lam['ineqnonlin'].num((b, l)) * w.branch.num(l, RATE_A) / base)
    busn = {VA: lambda i: va(i) * 180 / t.PI, VM: vm, MU_VMAX: lambda i: L('upper', 'Vm', i), MU_VMIN: lambda i: L('lower', 'Vm', i),
            LAM_P: lambda i: lam['eqnonlin'].num((0, i)) / base, LAM_Q: lambda i: lam['eqnonlin'].num((1, i)) / base}
    genn = {PG: lambda g: get('Pg', g) * base, QG: lambda g: get('Qg', g) * base, VG: lambda g: vm(gb(g)), MU_PMAX: lambda g: L('upper', 'Pg', g) / base, MU_PMIN: lambda g: L('lower', 'Pg', g) / base,
            MU_QMAX: lambda g: L('upper', 'Qg', g) / base, MU_QMIN: lambda g: L('lower', 'Qg', g) / base}
    brn = {PF: re(flow(Yf, F_BUS)), QF: im(flow(Yf, F_BUS)), PT: re(flow(Yt, T_BUS)), QT: im(flow(Yt, T_BUS)), MU_SF: lambda l: mu(0)(l) / base, MU_ST: lambda l: mu(1)(l) / base}
    cl += table('bus', r.get('bus'), bus0, busn) + table('gen', r.get('gen'), gen0, genn) + table('branch', r.get('branch'), br0, brn)
    # the vectors
    cl += same('point', r['x'], w.x) + same('raw point', raw['xr'], w.x) + [('objective', t.lift(r['f']) - w.f), ('success means a positive exit flag', sound(ok, w.info)), ('exit flag', t.lift(raw['info']) - w.info), ('solver output', lambda: raw['output'].get('message') == 'solver output')]
    neg = lambda i: t.lt0(lam['eqnonlin'].num(i)); pos = lambda i: t.lt0(-lam['eqnonlin'].num(i))
    nx = cataxis([nb, nb, nl, nl])
    nlo = lambda i: t.br(neg(i)) * -lam['eqnonlin'].num(i) if i[0] < 2 else t.ZERO
    nup = lambda i: t.br(pos(i)) * lam['eqnonlin'].num(i) if i[0] < 2 else mu(i[0] - 2)(i[1])
    M = r['mu']
    cl += same('nonlinear multipliers, lower', M['nln']['l'], SArray([nx], nlo, 'f')) + same('nonlinear multipliers, upper', M['nln']['u'], SArray([nx], nup, 'f'))
    for part, lo, up in (('var', 'lower', 'upper'), ('lin', 'mu_l', 'mu_u')): cl += same(part + ' multipliers, lower', M[part]['l'], lam[lo]) + same(part + ' multipliers, upper', M[part]['u'], lam[up])
    has = 'y' in names
    px = cataxis([nx, w.nlin] + ([fixaxis(1)] if has else []) + [w.xa])
    nv = len(names)
    def pim(i):
        k, j = i
        if k < 4: return nlo((k, j)) - nup((k, j))
        if k == 4: return lam['mu_l'].num(j) - lam['mu_u'].num(j)
        if has and k == 5: return -t.ONE
        k -= 6 if has else 5
        return lam['lower'].num((k, j)) - lam['upper'].num((k, j))
    cl += flatsame('pimul', raw['pimul'], SArray([px], pim, 'f'))
    cl.append(('the model goes with the results', lambda: r['om'] is args_[0])); cl.append(('base', lambda: r['baseMVA'] is base))
    return cl
def flatsame(n, a, b): return same(n, a, b)
def sound(ok, info):
    """success iff the flag is positive"""
    from pv import solve
    iff = lambda a, b: t.mkor(t.mkand(a, b), t.mkand(t.mknot(a), t.mknot(b)))
    if isinstance(ok, bool): return iff(t.TRUE if ok else t.FALSE, info > 0)
    return iff(t.ascond(ok), info > 0)
from pv import solve
CONTRACTS = []
def addc(c): CONTRACTS.append(c); return c
addc(FunContract(pipsopf_solver, None, {'y': ac_case(y=True, z=True)}, post=ac_post, callees=STUBS_AC, modifies=(0, 1), name='pipsopf_solver[piecewise linear costs]'))
addc(FunContract(pipsopf_solver, None, {'p': ac_case(y=False, z=False)}, post=ac_post, callees=STUBS_AC, modifies=(0, 1), name='pipsopf_solver[polynomial costs]'))

# ---- the DC solver ----------------------------------------------------------------------------------
def dc_world(S, y=True, z=True, user=True, model=(1, 2)):
    from .opfnet import OM
    w = OM(); w.S = S
    nb, ng, nl = w.nb, w.ng, w.nl = S.dim('nb', 1, 3), S.dim('ng', 1, 3), S.dim('nl', 1, 3); S.pre.extend(nonempty(nb, ng))
    w.base = S.scalar('baseMVA', 'p'); w.y = y; w.user = user
    w.bus = bus_table(S, nb, 17); w.gen = gen_table(S, ng, ncols=25, cols={7: ('const', 1)}); w.branch = branch_table(S, nl, ncols=21, cols={10: ('const', 1)})
    w.gencost = S.table('gencost', ng, 10, {MODEL: ('enum', model) if len(model) > 1 else ('const', model[0]), NCOST: ('enum', (2, 3))})
    S.pre.append(A.any_over(nb, lambda i: t.cmp_eq(w.bus.num(i, BUS_TYPE), t.q(3))))
    blocks = [('Va', nb), ('Pg', ng)]
    if y:
        w.ny = S.dim('ny', 1, 3); S.pre.extend(nonempty(w.ny)); blocks.append(('y', w.ny))
        S.pre.append(A.any_over(ng, lambda r: t.cmp_eq(w.gencost.num(r, MODEL), t.q(1))))
    if z: w.nz = S.dim('nz', 1, 3); blocks.append(('z', w.nz))
    w.blocks = blocks; w.names = [b[0] for b in blocks]; w.xa = cataxis([b[1] for b in blocks])
    w.x = S.array('x', [w.xa]); w.get = lambda n, i: w.x.num((w.names.index(n), i))
    m = w.om = opf_model({'baseMVA': w.base, 'bus': w.bus, 'gen': w.gen, 'branch': w.branch, 'gencost': w.gencost})
    block(m, 'var', blocks)
    w.il = A.find(SArray([nl], limited(w), 'b')); w.ila = w.il.axes[0]
    w.lin = [('Pmis', nb), ('Pf', w.ila), ('Pt', w.ila), ('ang', S.dim('nang', 0, 2))] + ([('ycon', S.dim('ncony', 1, 3))] if y else []) + ([('usr', S.dim('na', 1, 3))] if user else [])
    block(m, 'lin', w.lin); w.lax = cataxis([b[1] for b in w.lin])
    w.Bf = S.array('Bf', [nl, nb], storage='sparse'); w.Pfinj = S.array('Pfinj', [nl])
    m.user_data = dict(getattr(m, 'user_data', {}) or {}) if hasattr(m, 'user_data') else {}
    m.userdata('Bf', w.Bf); m.userdata('Pfinj', w.Pfinj)
    w.A = S.array('A', [w.lax, w.xa], storage='sparse'); w.l = S.array('l', [w.lax]); w.u = S.array('u', [w.lax])
    w.xmin, w.xmax = S.array('xmin', [w.xa]), S.array('xmax', [w.xa])
    if user:
        nw = w.nw = S.dim('nw', 1, 3); S.pre.extend(nonempty(nw))
        w.N = S.array('N', [nw, w.xa], storage='sparse'); w.Cw = S.array('Cw', [nw]); w.H = S.array('H', [nw, nw], storage='sparse')
        w.dd = SArray([nw], lambda i: t.ONE, 'f'); w.rh = S.array('rh', [nw]); w.kk = SArray([nw], lambda i: t.ZERO, 'f'); w.mm = S.array('mm', [nw])
        m.cost['params'] = {'N': w.N, 'Cw': w.Cw, 'H': w.H, 'dd': w.dd, 'rh': w.rh, 'kk': w.kk, 'mm': w.mm}
    else:
        m.cost['params'] = {'N': np.zeros((0, 1)), 'Cw': np.zeros(0), 'H': np.zeros((0, 0)), 'dd': np.ones(0), 'rh': np.zeros(0), 'kk': np.zeros(0), 'mm': np.ones(0)}
    w.lam = {'mu_l': S.array('lam.mul', [w.lax]), 'mu_u': S.array('lam.muu', [w.lax]), 'lower': S.array('lam.lo', [w.xa]), 'upper': S.array('lam.up', [w.xa])}
    w.f = S.scalar('f'); w.info = S.scalar('eflag'); w.ppc0 = snapshot(m.ppc)
    return w
def dc_case(**kw):
    def f(S):
        w = dc_world(S, **kw); GW['w'] = w
        w.opt = ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=True, OPF_ALG_DC=200)
        return [w.om, w.opt], {}
    return f
def st_qps(w, interp, HH, CC, A_, l, u, xmin, xmax, x0, opt):
    log(interp, 'qps', [HH, CC, A_, l, u, xmin, xmax, opt])
    return w.x.copy(), w.f, w.info, {'message': 'solver output'}, {k: v.copy() for k, v in w.lam.items()}
STUBS_DC = STUBS_AC[:2] + [stub(qps_pypower, late(st_qps)), STUBS_AC[4]]
def dc_post(out, args_, snap, ghost, it):
    w = GW['w']; nb, ng, nl, base = w.nb, w.ng, w.nl, w.base; cl = []
    if not (isinstance(out, tuple) and len(out) == 3 and isinstance(out[0], dict) and isinstance(out[2], dict)): return [('results, success, raw', lambda: False)]
    r, ok, raw = out
    bus0, gen0, br0 = w.ppc0['bus'], w.ppc0['gen'], w.ppc0['branch']; gc = w.ppc0['gencost']
    P = calls(ghost, 'qps')
    if len(P) != 1: return [('one run of the optimiser', lambda: False)]
    a = P[0].args; names = w.names
    for n, x, y in (('A', a[2], w.A), ('l', a[3], w.l), ('u', a[4], w.u), ('xmin', a[5], w.xmin), ('xmax', a[6], w.xmax)): cl += same('problem ' + n, x, y)
    # 1/2 x'HH x + CC'x + C0 is the model's cost: polynomial costs of the outputs, the y variables, the user costs
    pol = lambda g: t.br(t.cmp_eq(gc.num(g, MODEL), t.q(2)))
    quad = lambda g: t.br(t.cmp_eq(gc.num(g, NCOST), t.q(3)))
    c2 = lambda g: pol(g) * quad(g) * gc.num(g, COST) * base ** 2
    c1 = lambda g: pol(g) * (quad(g) * gc.num(g, COST + 1) + (1 - quad(g)) * gc.num(g, COST)) * base
    c0 = lambda g: pol(g) * (quad(g) * gc.num(g, COST + 2) + (1 - quad(g)) * gc.num(g, COST + 1))
    ig, iy = names.index('Pg'), names.index('y') if 'y' in names else None
    U = (lambda i: w.mm.num(i)) if w.user else None
    def hh(i, j):
        e = 2 * c2(i[1]) * t.br(A.ixeq(i[1], j[1])) if i[0] == ig and j[0] == ig else t.ZERO
        if w.user: e = e + A.sum_over(w.nw, lambda p: A.sum_over(w.nw, lambda q: U(p) * w.N.num(p, i) * w.H.num(p, q) * U(q) * w.N.num(q, j)))
        return e
    def cc(i):
        e = c1(i[1]) if i[0] == ig else t.ONE if i[0] == iy else t.ZERO
        if w.user: e = e + A.sum_over(w.nw, lambda p: U(p) * w.N.num(p, i) * (w.Cw.num(p) - A.sum_over(w.nw, lambda q: w.H.num(p, q) * U(q) * w.rh.num(q))))
        return e
    C0 = A.sum_over(ng, c0)
    if w.user: C0 = C0 + t.HALF * A.sum_over(w.nw, lambda p: A.sum_over(w.nw, lambda q: U(p) * w.rh.num(p) * w.H.num(p, q) * U(q) * w.rh.num(q))) - A.sum_over(w.nw, lambda p: U(p) * w.rh.num(p) * w.Cw.num(p))
    cl += same('quadratic costs', a[0], SArray([w.xa, w.xa], hh, 'f', 'sparse')) + same('linear costs', a[1], SArray([w.xa], cc, 'f'))
    cl.append(('objective', t.lift(r['f']) - w.f - C0))
    o = a[7]
    cl.append(('solver options', lambda: o.get('alg') == 200 and o['pips_opt']['feastol'] == (w.opt['PDIPM_FEASTOL'] or w.opt['OPF_VIOLATION']) and all(o['pips_opt'][k] == w.opt['PDIPM_' + k.upper()] for k in ('gradtol', 'comptol', 'costtol'))))
    lam = w.lam; get = w.get
    L = lambda k, n, i: lam[k].num((names.index(n), i))
    ln = [n for n, _ in w.lin]
    M = lambda k, n, i: lam[k].num((ln.index(n), i))
    zero = lambda *c: {j: (lambda i: t.ZERO) for j in c}
    pf = lambda l: (A.sum_over(nb, lambda j: w.Bf.num(l, j) * get('Va', j)) + w.Pfinj.num(l)) * base
    busn = dict(zero(LAM_Q, MU_VMIN, MU_VMAX)); busn.update({VA: lambda i: get('Va', i) * 180 / t.PI, LAM_P: lambda i: (M('mu_u', 'Pmis', i) - M('mu_l', 'Pmis', i)) / base})
    genn = dict(zero(MU_QMIN, MU_QMAX)); genn.update({PG: lambda g: get('Pg', g) * base, MU_PMIN: lambda g: L('lower', 'Pg', g) / base, MU_PMAX: lambda g: L('upper', 'Pg', g) / base})
    lim = limited(w)
    brn = dict(zero(QF, QT)); brn.update({PF: pf, PT: lambda l: -pf(l), MU_SF: lambda l: t.br(lim(l)) * M('mu_u', 'Pf', l) / base, MU_ST: lambda l: t.br(lim(l)) * M('mu_u', 'Pt', l) / base})
    cl += table('bus', r.get('bus'), bus0, busn) + table('gen', r.get('gen'), gen0, genn) + table('branch', r.get('branch'), br0, brn)
    cl += same('point', r['x'], w.x) + same('raw point', raw['xr'], w.x)
    one = t.cmp_eq(w.info, t.ONE); okc = t.ascond(ok) if not isinstance(ok, bool) else (t.TRUE if ok else t.FALSE)
    cl += [('success means an exit flag of one', t.mkor(t.mkand(okc, one), t.mkand(t.mknot(okc), t.mknot(one)))), ('exit flag', t.lift(raw['info']) - w.info), ('solver output', lambda: raw['output'].get('message') == 'solver output')]
    mu = r['mu']
    for part, lo, up in (('var', 'lower', 'upper'), ('lin', 'mu_l', 'mu_u')): cl += same(part + ' multipliers, lower', mu[part]['l'], lam[lo]) + same(part + ' multipliers, upper', mu[part]['u'], lam[up])
    has = 'y' in names; nL = len(ln)
    px = cataxis([w.lax] + ([fixaxis(1)] if has else []) + [w.xa])
    def pim(i):
        k, j = i
        if k < nL: return lam['mu_l'].num((k, j)) - lam['mu_u'].num((k, j))
        if has and k == nL: return -t.ONE
        k -= nL + has
        return lam['lower'].num((k, j)) - lam['upper'].num((k, j))
    cl += same('pimul', raw['pimul'], SArray([px], pim, 'f'))
    cl.append(('base', lambda: r['baseMVA'] is base or r['baseMVA'] == base))
    return cl
for lab, kw in (('piecewise linear costs', dict(y=True, z=True, user=False)), ('polynomial costs', dict(y=False, z=False, user=False, model=(2,))), ('user costs', dict(y=False, z=True, user=True, model=(2,))),
                ('piecewise linear and user costs', dict(y=True, z=True, user=True)), ('only piecewise linear costs', dict(y=True, z=False, user=False, model=(1,)))):
    addc(FunContract(dcopf_solver, None, {'dc': dc_case(**kw)}, post=dc_post, callees=STUBS_DC, modifies=(0, 1), name='dcopf_solver[%s]' % lab))

# ---- multipliers of the sloped sides of capability curves -------------------------------------------
def mup_case(S):
    w = W_(); GW['w'] = w
    nb, ng = S.dim('nb', 1, 3), S.dim('ng', 1, 4)
    w.ng = ng; w.gen = gen_table(S, ng, ncols=25); w.base = S.scalar('baseMVA', 'p')
    w.h, w.l = [A.find(SArray([ng], lambda g, n=n: t.pred(n, (g,)), 'b')) for n in ('hasPQh', 'hasPQl')]
    w.muh, w.mul = S.array('mu_PQh', [w.h.axes[0]]), S.array('mu_PQl', [w.l.axes[0]])
    w.Ah, w.Al = S.array('Apqh.data', [w.h.axes[0], fixaxis(2)]), S.array('Apql.data', [w.l.axes[0], fixaxis(2)])
    w.ppc0 = {'gen': snapshot(w.gen)}
    return [w.base, w.gen, w.muh, w.mul, {'ipqh': w.h, 'ipql': w.l, 'h': w.Ah, 'l': w.Al}], {}
class W_(object): pass
def combined(gen, base, hasx, mux, Ax, k, g):
    """marginal value of a limit (upper minus lower) with what the sloped constraints add"""
    up, lo = ((MU_PMAX, MU_PMIN), (MU_QMAX, MU_QMIN))[k]
    m = gen.num(g, up) - gen.num(g, lo)
    for has, mu, Ad in zip(hasx, mux, Ax): m = m - t.br(has(g)) * mu(g) * Ad(g, k) / base
    return m
def mup_cols(gen, base, has, mu, Ad):
    m = lambda k: (lambda g: combined(gen, base, has, mu, Ad, k, g))
    pos = lambda f: (lambda g: t.ite(t.lt0(-f(g)), f(g), t.ZERO)); neg = lambda f: (lambda g: t.ite(t.lt0(f(g)), -f(g), t.ZERO))
    return {MU_PMAX: pos(m(0)), MU_PMIN: neg(m(0)), MU_QMAX: pos(m(1)), MU_QMIN: neg(m(1))}, m
def mup_post(out, args_, snap, ghost, it):
    w = GW['w']; g0 = w.ppc0['gen']
    P = lambda n: (lambda g: t.pred(n, (g,)))
    new, m = mup_cols(g0, w.base, (P('hasPQh'), P('hasPQl')), (lambda g: w.muh.num(g), lambda g: w.mul.num(g)), (lambda g, k: w.Ah.num(g, k), lambda g, k: w.Al.num(g, k)))
    return table('gen', out, g0, new)
# what the split into two limits guarantees, for any combined value m (the contract says the columns are these two parts of it)
def split_lemmas():
    m = t.inp('m', ()); zero = lambda c: t.ite(c, t.ONE, t.ZERO)
    p, n = t.ite(t.lt0(-m), m, t.ZERO), t.ite(t.lt0(m), -m, t.ZERO)
    cases = [('m > 0', t.lt0(-m)), ('m = 0', t.cmp_eq(m, t.ZERO)), ('m < 0', t.lt0(m))]
    out = [('the three signs are all there are', (lambda: solve.implied([], t.mkor(*[c for _, c in cases])) is True))]
    for nm, c in cases:
        out += [('%s: total marginal value is kept' % nm, (lambda c=c: solve.is_zero(p - n - m, [c]) or (c is cases[1][1] and solve.implied([c], t.cmp_eq(p - n - m, t.ZERO)) is True))),
                ('%s: neither limit has a negative multiplier' % nm, (lambda c=c: solve.implied([c], t.lt0(p)) is False and solve.implied([c], t.lt0(n)) is False)),
                ('%s: one limit at most has a multiplier' % nm, (lambda c=c: solve.implied([c], t.mkand(t.lt0(-p), t.lt0(-n))) is False))]
    return out
from pv import solve
addc(FunContract(update_mupq, None, {'any curves': mup_case}, post=mup_post, modifies=(1,), name='update_mupq'))

# ---- the OPF driver: solver, redistribution, per-block values and shadow prices ----------------------
def ex_world(S, dc, success, curve=True, ang=True, pwl1=False, user=True, alg=0):
    w = W_(); w.S = S; w.dc = dc; w.success = success
    nb, ng, nl = w.nb, w.ng, w.nl = S.dim('nb', 1, 3), S.dim('ng', 1, 3), S.dim('nl', 1, 3); S.pre.extend(nonempty(nb, ng))
    w.base = S.scalar('baseMVA', 'p'); w.curve = curve; w.ang = ang
    w.bus = bus_table(S, nb, 17); w.gen = gen_table(S, ng, ncols=25, cols={7: ('const', 1)}); w.branch = branch_table(S, nl, ncols=21, cols={10: ('const', 1)})
    w.h, w.l = [A.find(SArray([ng], lambda g, n=n: t.pred(n, (g,)), 'b')) for n in ('hasPQh', 'hasPQl')]
    w.Ah, w.Al = S.array('Apqh.data', [w.h.axes[0], fixaxis(2)]), S.array('Apql.data', [w.l.axes[0], fixaxis(2)])
    w.iang = A.find(SArray([nl], lambda l: t.pred('hasang', (l,)), 'b'))
    w.vars = [('Va', nb), ('Pg', ng)] if dc else [('Va', nb), ('Vm', nb), ('Pg', ng), ('Qg', ng)]
    if user: w.nz = S.dim('nz', 0, 2); w.vars.append(('z', w.nz))
    w.linb = ([('Pmis', nb), ('Pf', S.dim('nlim', 0, 2)), ('Pt', S.dim('nlim', 0, 2))] if dc else [('PQh', w.h.axes[0] if curve else fixaxis(0)), ('PQl', w.l.axes[0] if curve else fixaxis(0)), ('vl', S.dim('nvl', 0, 2))])
    w.linb.append(('ang', w.iang.axes[0] if ang else fixaxis(0)))
    if user: w.linb.append(('usr', S.dim('na', 0, 2)))
    w.nlnb = [] if dc else [('Pmis', nb), ('Qmis', nb), ('Sf', nl), ('St', nl)]
    m = w.om = opf_model({'baseMVA': w.base, 'bus': w.bus, 'gen': w.gen, 'branch': w.branch})
    for part, names in (('var', w.vars), ('lin', w.linb), ('nln', w.nlnb), ('cost', [('usr', S.dim('nw', 1, 2))] if user else [])): block(m, part, names)
    if user: S.pre.extend(nonempty(S.dim('nw', 1, 2)))
    w.user = user
    w.cat = {k: cataxis([a for _, a in v]) for k, v in (('var', w.vars), ('lin', w.linb), ('nln', w.nlnb))}
    w.bl = {k: [n for n, a in v if not a.isfix(0)] for k, v in (('var', w.vars), ('lin', w.linb), ('nln', w.nlnb))}
    w.x = S.array('x', [w.cat['var']])
    w.mu = {k: {s: S.array('mu.%s.%s' % (k, s), [w.cat[k]]) for s in 'lu'} for k in (('var', 'lin') if dc else ('var', 'lin', 'nln'))}
    m.userdata('Apqdata', {'ipqh': w.h, 'ipql': w.l, 'h': w.Ah, 'l': w.Al}); m.userdata('iang', w.iang)
    w.npw = S.dim('npw', 1, 2)
    if pwl1: S.pre.extend(nonempty(w.npw)); m.userdata('pwl1', S.array('pwl1', [w.npw], storage='dense'))
    else: m.userdata('pwl1', np.array([], dtype=int))
    w.pwl1 = pwl1
    w.opt = ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=dc, OPF_ALG=alg)
    w.f = S.scalar('f'); w.at0 = snapshot([w.bus, w.gen, w.branch])
    return w
def ex_case(**kw):
    def f(S):
        w = ex_world(S, **kw); GW['w'] = w
        return [w.om, w.opt], {}
    return f
def solver(name):
    def f(w, interp, om, ppopt, *a):
        interp.ghost.append(('solver', name, om is w.om, ppopt is w.opt))
        r = {'baseMVA': w.base, 'bus': w.bus.copy(), 'gen': w.gen.copy(), 'branch': w.branch.copy(), 'om': om, 'x': w.x.copy(), 'f': w.f,
             'mu': {k: {s: v.copy() for s, v in d.items()} for k, d in w.mu.items()}}
        return r, w.success, {'xr': w.x.copy(), 'pimul': 'pimul', 'info': 'info', 'output': {'alg': 'the algorithm'} if w.dc else {}}
    return late(f)
def st_mupq(w, interp, base, gen, muh, mul, data):
    log(interp, 'update_mupq', [base, gen, muh, mul]); interp.ghost.append(('curve data', data.get('ipqh') is w.h and data.get('ipql') is w.l and data.get('h') is w.Ah and data.get('l') is w.Al))
    gen = gen.copy()
    new, m = mup_cols(snapshot(gen), t.lift(base), (lambda g: t.pred('hasPQh', (g,)), lambda g: t.pred('hasPQl', (g,))), (lambda g: muh.num(g), lambda g: mul.num(g)), (lambda g, k: w.Ah.num(g, k), lambda g, k: w.Al.num(g, k)))
    old = gen.copy()
    return SArray(gen.axes, lambda g, j: new[j](g) if j in new else old.num(g, j), 'f')
from pypower.opf_model import opf_model as _om
STUBS_EX = [stub(pipsopf_solver, solver('pips')), stub(dcopf_solver, solver('dc')), stub(update_mupq, late(st_mupq)), stub(_om.build_cost_params, lambda it, om: it.ghost.append(('costs built',))),
            stub(_om.compute_cost, lambda it, om, x, name=None: (log(it, 'compute_cost', [x, name]), 'user cost value')[1])]
def ex_post(out, args_, snap, ghost, it):
    w = GW['w']; nb, ng, nl, base, dc = w.nb, w.ng, w.nl, w.base, w.dc; cl = []
    if not (isinstance(out, tuple) and len(out) == 3 and isinstance(out[0], dict) and isinstance(out[2], dict)): return [('results, success, raw', lambda: False)]
    r, ok, raw = out; bus0, gen0, br0 = w.at0
    sv = [g for g in ghost if isinstance(g, tuple) and g and g[0] == 'solver']
    cl += [('the solver of the formulation runs once, on this model and these options', lambda: sv == [('solver', 'dc' if dc else 'pips', True, True)]), ('success is the solver\'s', lambda: ok is w.success),
           ('costs are built before the solver runs', lambda: [g[0] for g in ghost if isinstance(g, tuple) and g[0] in ('costs built', 'solver')] == ['costs built', 'solver'])]
    P = lambda n: (lambda g: t.pred(n, (g,)))
    col = w.bl['lin']
    ML = lambda s, n, i: w.mu['lin'][s].num((col.index(n), i)) if len(col) > 1 else w.mu['lin'][s].num(i)
    newg = {}
    if w.success and not dc:
        newg = {VG: lambda g: bus0.num(row(nb, w.gen, GEN_BUS, g), VM)}
        if w.curve:
            d = lambda n: (lambda g: ML('l', n, g) - ML('u', n, g))
            c, m = mup_cols(gen0, base, (P('hasPQh'), P('hasPQl')), (d('PQh'), d('PQl')), (lambda g, k: w.Ah.num(g, k), lambda g, k: w.Al.num(g, k)))
            anyc = t.mkor(A.any_over(w.h.axes[0], lambda i: t.TRUE), A.any_over(w.l.axes[0], lambda i: t.TRUE))
            newg.update({j: (lambda g, j=j, f=f: t.ite(anyc, f(g), gen0.num(g, j))) for j, f in c.items()})
    cl += table('bus', r.get('bus'), bus0, {}) + table('gen', r.get('gen'), gen0, newg)
    cl.append(('capability data', lambda: all(g[1] for g in ghost if isinstance(g, tuple) and g and g[0] == 'curve data')))
    newb = {}
    if w.success:
        on = P('hasang') if w.ang else (lambda l: t.FALSE)
        newb = {j: (lambda l, s=s, j=j: t.ite(on(l), ML(s, 'ang', l) * t.PI / 180, t.ZERO) if w.ang else t.ZERO) for j, s in ((MU_ANGMIN, 'l'), (MU_ANGMAX, 'u'))}
    cl += table('branch', r.get('branch'), br0, newb)
    # named blocks
    def part(where, kind, names, get):
        out = []
        d = where() if True else None
        return out
    def slices(what, d, arr, kind):
        names = [(n, ax) for n, ax in {'var': w.vars, 'lin': w.linb, 'nln': w.nlnb}[kind]]
        c = []
        for n, ax in names:
            if ax.isfix(0): c.append(('%s of %s: no block' % (what, n), lambda n=n: n not in d)); continue
            if n not in d:
                c.append(('%s of %s present unless empty' % (what, n), t.mknot(A.any_over(ax, lambda i: t.TRUE)))); continue
            k = w.bl[kind].index(n)
            c += same('%s of %s' % (what, n), d[n], SArray([ax], lambda i, k=k: arr.num((k, i)) if len(w.bl[kind]) > 1 else arr.num(i), 'f'))
        c.append((what + ': only the blocks', lambda: set(d) <= {n for n, _ in names}))
        return c
    try:
        cl += slices('value', r['var']['val'], w.x, 'var')
        for s in 'lu':
            cl += slices('shadow price (variables, %s)' % s, r['var']['mu'][s], w.mu['var'][s], 'var') + slices('shadow price (linear, %s)' % s, r['lin']['mu'][s], w.mu['lin'][s], 'lin')
            if not dc: cl += slices('shadow price (nonlinear, %s)' % s, r['nln']['mu'][s], w.mu['nln'][s], 'nln')
    except KeyError as e: cl.append(('results hold %s' % e, lambda: False))
    if w.user:
        cc = calls(ghost, 'compute_cost')
        cl.append(('user cost value', lambda: r.get('cost') == {'usr': 'user cost value'} and len(cc) == 1 and cc[0].args[1] == 'usr'))
        if cc: cl += same('user cost at the optimal point', cc[0].args[0], w.x)
    # the point, with dummies for costs converted to straight lines
    nf = 2 if dc else 4
    if w.pwl1:
        parts = [a for _, a in w.vars[:nf]] + [w.npw] + [a for _, a in w.vars[nf:]]
        want = SArray([cataxis(parts)], lambda i: t.ZERO if i[0] == nf else w.x.num((i[0] - (i[0] > nf), i[1])), 'f')
    else: want = w.x
    cl += same('point', r['x'], want) + same('raw point', raw['xr'], want)
    cl += [('objective', t.lift(r['f']) - w.f), ('algorithm recorded', lambda: raw['output'].get('alg') == ('the algorithm' if dc else w.opt['OPF_ALG'] or 560)), ('raw multipliers', lambda: raw['pimul'] == 'pimul' and raw['info'] == 'info')]
    for k, d in w.mu.items():
        for s in 'lu': cl += same('multipliers %s.%s kept' % (k, s), r['mu'][k][s], d[s])
    return cl
for lab, kw in (('AC', dict(dc=False, success=True)), ('AC, converted costs', dict(dc=False, success=True, pwl1=True)), ('AC, no curves, no angle limits', dict(dc=False, success=True, curve=False, ang=False, user=False)), ('AC, failure', dict(dc=False, success=False)),
                ('AC, step-controlled solver', dict(dc=False, success=True, user=False, alg=565)), ('DC', dict(dc=True, success=True)), ('DC, converted costs', dict(dc=True, success=True, pwl1=True)), ('DC, failure', dict(dc=True, success=False))):
    addc(FunContract(opf_execute, None, {lab: ex_case(**kw)}, post=ex_post, callees=STUBS_EX, modifies=(0, 1), max_paths=400, name='opf_execute[%s]' % lab))

# ---- the OPF as a whole: conversion, model, solution, conversion back, zero rows for what is out of service ----
from pypower.opf import opf as opf_fn
from pypower.opf_args import opf_args2
from pypower.opf_setup import opf_setup
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from .drv import World
def opf_case_(wide, success):
    def f(S):
        w = World(S); GW['w'] = w; w.success = success; w.wide = wide
        nbx, ngx, nlx = (w.ext[k].axes[0] for k in range(3))
        w.in_ = [S.table('ibus', nbx, 17 if wide else 13, {}), S.table('igen', ngx, 25 if wide else 21, {}), S.table('ibranch', nlx, 21 if wide else 13, {})]
        w.in0 = snapshot(w.in_)
        w.res = [S.table('rbus', nbx, 17, {}), S.table('rgen', ngx, 25, {}), S.table('rbranch', nlx, 21, {})]
        w.opt = ppoption(VERBOSE=0, OUT_ALL=0)
        w.toks = {n: {'token': n} for n in ('internal case', 'model')}
        return ['the case', w.opt], {}
    return f
def st_args2(w, it, *a, **k): it.ghost.append(('args', a == ('the case', w.opt))); return {'baseMVA': w.base, 'bus': w.in_[0].copy(), 'gen': w.in_[1].copy(), 'branch': w.in_[2].copy()}, w.opt
def st_e2i(w, it, ppc, *a): log(it, 'ext2int', [ppc]); return w.toks['internal case']
def st_setup(w, it, ppc, opt): it.ghost.append(('setup', ppc is w.toks['internal case'] and opt is w.opt)); return w.toks['model']
def st_exec(w, it, om, opt): it.ghost.append(('execute', om is w.toks['model'] and opt is w.opt)); w.raw = {'token': 'raw'}; return {'token': 'internal results'}, w.success, w.raw
def st_back(w, it, r, *a):
    it.ghost.append(('back', r.get('token') == 'internal results'))
    return {'bus': w.res[0].copy(), 'gen': w.res[1].copy(), 'branch': w.res[2].copy(), 'f': 'cost', 'order': {'state': 'e', 'gen': {'status': {'off': w.offg}}, 'branch': {'status': {'off': w.offl}}}}
STUBS_OPF = [stub(opf_args2, late(st_args2)), stub(ext2int, late(st_e2i)), stub(opf_setup, late(st_setup)), stub(opf_execute, late(st_exec)), stub(int2ext, late(st_back))]
def opf_post(out, args_, snap, ghost, it):
    w = GW['w']
    if not isinstance(out, dict): return [('results', lambda: False)]
    steps = [g for g in ghost if isinstance(g, tuple) and g[0] in ('args', 'setup', 'execute', 'back')]
    cl = [('every step once, in order, on the previous one\'s result', lambda: steps == [(n, True) for n in ('args', 'setup', 'execute', 'back')])]
    c = calls(ghost, 'ext2int')
    if len(c) != 1: return cl + [('one conversion to internal numbering', lambda: False)]
    p = c[0].args[0]
    for n, x, ncol in (('bus', w.in0[0], 17), ('gen', w.in0[1], 25), ('branch', w.in0[2], 21)):
        y = p[n]
        if not isinstance(y, SArray) or y.ndim != 2 or not y.axes[1].isfix(ncol): cl.append((n + ' widened for the multipliers', lambda: False)); continue
        cl += [('%s column %d' % (n, j), Claim([x.axes[0]], lambda i, j=j, x=x, y=y: y.num(i, j) - (x.num(i, j) if j < x.axes[1].n else t.ZERO))) for j in range(ncol)]
    off = lambda n: (lambda i: t.pred(n, (i,)))
    z = lambda tab, o, cols: {j: (lambda i, j=j: t.ite(o(i), t.ZERO, tab.num(i, j))) for j in cols}
    cl += table('result bus', out['bus'], w.res[0], {}) + table('result gen', out['gen'], w.res[1], z(w.res[1], off('offg'), (PG, QG, MU_PMAX, MU_PMIN))) + \
        table('result branch', out['branch'], w.res[2], z(w.res[2], off('offl'), (PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX)))
    cl += [('success and raw results are the solver\'s', lambda: out['success'] is w.success and out['raw'] is w.raw), ('cost', lambda: out['f'] == 'cost')]
    return cl
for wide in (True, False):
    for succ in (True, False):
        addc(FunContract(opf_fn, None, {'opf': opf_case_(wide, succ)}, post=opf_post, callees=STUBS_OPF, modifies=(0, 1), name='opf[%s tables, %s]' % ('wide' if wide else 'narrow', 'success' if succ else 'failure')))

# ---- run-time evaluation ----------------------------------------------------------------------------
import sys
from .c19 import opf_case
TABS = ('version', 'baseMVA', 'bus', 'gen', 'branch', 'gencost')
def widened(c):
    w = lambda x, n: np.c_[x, np.zeros((x.shape[0], n - x.shape[1]))] if x.shape[1] < n else x
    c['bus'] = w(c['bus'], 17); c['gen'] = w(c['gen'], 25); c['branch'] = w(c['branch'], 21)
    return c
class Patch(object):
    """a solver replaced in the module that calls it"""
    def __init__(self, mod, name, f): self.m = sys.modules[mod]; self.n = name; self.f = f
    def __enter__(self): self.old = getattr(self.m, self.n); setattr(self.m, self.n, self.f)
    def __exit__(self, *a): setattr(self.m, self.n, self.old)
def def_flows(c, V):
    """complex power at both ends of each branch by the branch model, MVA"""
    Sf, St = G.flows(c, V)
    return Sf * c['baseMVA'], St * c['baseMVA']
def mult(rng, n, p=.5): return np.where(rng.rand(n) < p, 0, rng.uniform(0, 50, n))
def rt_solver(rng, k):
    dc = bool(rng.rand() < .5)
    c = widened({n: v for n, v in opf_case(rng, q=not dc and rng.rand() < .3).items() if n in TABS}); c.setdefault('version', '2')
    nb, ng, nl, base = c['bus'].shape[0], c['gen'].shape[0], c['branch'].shape[0], c['baseMVA']
    c['branch'][rng.rand(nl) < .3, RATE_A] = rng.choice([0, 1e10, 2e10, 250, 5e9])
    for t_, cols in (('bus', (LAM_P, LAM_Q, MU_VMAX, MU_VMIN)), ('gen', (MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN)), ('branch', (PF, QF, PT, QT, MU_SF, MU_ST))):
        for j in cols: c[t_][:, j] = rng.uniform(-1, 1, c[t_].shape[0])     # left by an earlier run
    if dc:
        q = c['gencost']; pol = q[:, MODEL] == POLYNOMIAL
        if q.shape[1] < COST + 3: q = np.c_[q, np.zeros((q.shape[0], COST + 3 - q.shape[1]))]
        for i in np.flatnonzero(pol): q[i, NCOST] = rng.choice([2, 3]); q[i, COST:] = 0; q[i, COST:COST + int(q[i, NCOST])] = rng.uniform(0, 9, int(q[i, NCOST]))
        c['gencost'] = q
        if rng.rand() < .4:
            from scipy.sparse import csr_matrix
            nw = rng.randint(1, 3); c['N'] = csr_matrix(rng.uniform(-1, 1, (nw, nb + ng))); c['Cw'] = rng.uniform(-9, 9, nw); H = rng.uniform(-1, 1, (nw, nw)); c['H'] = csr_matrix(H + H.T)
            c['fparm'] = np.c_[np.ones(nw), rng.uniform(-1, 1, nw), np.zeros(nw), rng.uniform(.5, 2, nw)]
    import copy
    c0 = copy.deepcopy(c); opt = ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=dc, OPF_ALG_DC=200)
    om = opf_setup(c, opt); om.build_cost_params()
    vv, ll, nn, _ = om.get_idx(); nx = om.getN('var'); nlin = om.getN('lin')
    x = rng.uniform(.4, 1.1, nx); x[vv['i1']['Va']:vv['iN']['Va']] = rng.uniform(-.5, .5, nb)
    lim = (c0['branch'][:, RATE_A] != 0) & (c0['branch'][:, RATE_A] < 1e10); nlim = int(lim.sum())
    lam = {'lower': mult(rng, nx), 'upper': mult(rng, nx), 'mu_l': mult(rng, nlin), 'mu_u': mult(rng, nlin)}
    if not dc: lam['eqnonlin'] = rng.uniform(-50, 50, 2 * nb); lam['ineqnonlin'] = mult(rng, 2 * nlim)
    f0 = rng.uniform(0, 999); flag = int(rng.choice([1, 1, 0, -1])); seen = []
    def fake(*a, **kw):
        seen.append(a)
        l = {n: v.copy() for n, v in lam.items()}
        return (x.copy(), f0, flag, {'message': ''}, l) if dc else {'x': x.copy(), 'f': f0, 'eflag': flag, 'lmbda': l, 'output': {'message': ''}}
    fn, mod, nm = (dcopf_solver, 'pypower.dcopf_solver', 'qps_pypower') if dc else (pipsopf_solver, 'pypower.pipsopf_solver', 'pips')
    if not hasattr(sys.modules[mod], nm): raise Skip()
    with Patch(mod, nm, fake): r, ok, raw = fn(om, opt)
    if not seen: raise Skip()
    get = lambda n, v=x: v[vv['i1'][n]:vv['iN'][n]]
    need(bool(ok) == (flag == 1 if dc else flag > 0), 'success')
    bus, gen, br = r['bus'], r['gen'], r['branch']; data = dict(case=G.dump(c0)) if hasattr(G, 'dump') else {}
    needclose(bus[:, VA], np.rad2deg(get('Va')), 'angles in degrees'); needclose(gen[:, PG], get('Pg') * base, 'real outputs in MW')
    needclose(gen[:, MU_PMAX], get('Pg', lam['upper']) / base, 'PMAX multipliers'); needclose(gen[:, MU_PMIN], get('Pg', lam['lower']) / base, 'PMIN multipliers')
    if dc:
        on = br[:, BR_STATUS] != 0; tap = np.where(br[:, TAP] == 0, 1, br[:, TAP]); f, to = br[:, F_BUS].astype(int), br[:, T_BUS].astype(int); va = get('Va')
        flow = on * (va[f] - va[to] - np.deg2rad(br[:, SHIFT])) / br[:, BR_X] / tap * base
        needclose(br[:, PF], flow, 'flows in MW'); needclose(br[:, PT], -flow, 'flows at the far end'); need(not br[:, [QF, QT]].any(), 'no reactive flows')
        L = lambda n, k: lam[k][ll['i1'][n]:ll['iN'][n]]
        needclose(bus[:, LAM_P], (L('Pmis', 'mu_u') - L('Pmis', 'mu_l')) / base, 'energy prices')
        for cc_, n in ((MU_SF, 'Pf'), (MU_ST, 'Pt')):
            e = np.zeros(nl); e[lim] = L(n, 'mu_u') / base; needclose(br[:, cc_], e, 'flow limit multipliers of %s' % n)
        need(not bus[:, [LAM_Q, MU_VMAX, MU_VMIN]].any() and not gen[:, [MU_QMAX, MU_QMIN]].any(), 'no reactive or voltage prices')
        # the cost handed to the optimiser, with the constant, is the model's
        HH, CC = seen[0][0], seen[0][1]; X = rng.uniform(-1, 1, nx); gc = om.get_ppc()['gencost']
        cost = lambda X: .5 * X @ (HH @ X) + CC @ X + (r['f'] - f0)
        e = 0.
        for i, q in enumerate(gc[:ng]):
            if q[MODEL] == POLYNOMIAL: e += sum(q[COST + j] * (get('Pg', X)[i] * base) ** (int(q[NCOST]) - 1 - j) for j in range(int(q[NCOST])))
        if om.getN('var', 'y'): e += get('y', X).sum()
        if 'N' in c0:
            full = c0['N'] @ np.r_[get('Va', X), get('Pg', X)]; w = c0['fparm'][:, 3] * (full - c0['fparm'][:, 1]); e += .5 * w @ (c0['H'] @ w) + c0['Cw'] @ w
        needclose(cost(X), e, 'cost of a point, with the reported constant', 1e-7 * (1 + abs(e)))
    else:
        V = get('Vm') * np.exp(1j * get('Va')); Sf, St = def_flows(c0, V)
        needclose(bus[:, VM], get('Vm'), 'magnitudes'); needclose(gen[:, QG], get('Qg') * base, 'reactive outputs in MVAr'); needclose(gen[:, VG], get('Vm')[gen[:, GEN_BUS].astype(int)], 'voltage set points')
        for j, e in ((PF, Sf.real), (QF, Sf.imag), (PT, St.real), (QT, St.imag)): needclose(br[:, j], e, 'flow column %d' % j, 1e-7)
        needclose(bus[:, LAM_P], lam['eqnonlin'][:nb] / base, 'energy prices'); needclose(bus[:, LAM_Q], lam['eqnonlin'][nb:] / base, 'reactive prices')
        needclose(bus[:, MU_VMAX], get('Vm', lam['upper']), 'voltage multipliers'); needclose(bus[:, MU_VMIN], get('Vm', lam['lower']), 'voltage multipliers')
        needclose(gen[:, MU_QMAX], get('Qg', lam['upper']) / base, 'QMAX multipliers'); needclose(gen[:, MU_QMIN], get('Qg', lam['lower']) / base, 'QMIN multipliers')
        for cc_, part in ((MU_SF, lam['ineqnonlin'][:nlim]), (MU_ST, lam['ineqnonlin'][nlim:])):
            e = np.zeros(nl); e[lim] = 2 * part * c0['branch'][lim, RATE_A] / base / base; needclose(br[:, cc_], e, 'flow limit multipliers')
    for n in ('bus', 'gen', 'branch'):
        skip = {'bus': (VA, VM, LAM_P, LAM_Q, MU_VMAX, MU_VMIN), 'gen': (PG, QG, VG, MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN), 'branch': (PF, QF, PT, QT, MU_SF, MU_ST)}[n]
        keep = [j for j in range(c0[n].shape[1]) if j not in skip]
        need(np.array_equal(r[n][:, keep], c0[n][:, keep]), 'other columns of ' + n)
    return (dc, flag, nlim > 0, 'N' in c0)
def rt_execute(rng, k):
    """opf_execute on a real model, the solver's answer given"""
    dc = bool(rng.rand() < .4)
    c = widened({n: v for n, v in opf_case(rng, q=False).items() if n in TABS}); c.setdefault('version', '2')
    nb, ng, nl, base = c['bus'].shape[0], c['gen'].shape[0], c['branch'].shape[0], c['baseMVA']
    if c['gencost'].shape[1] < COST + 4: c['gencost'] = np.c_[c['gencost'], np.zeros((ng, COST + 4 - c['gencost'].shape[1]))]
    for q in c['gencost']:
        if rng.rand() < .3: q[MODEL], q[NCOST] = PW_LINEAR, 2; q[COST:] = 0; q[COST:COST + 4] = 0, 1, 50, 700
    opt = ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=dc, OPF_ALG_DC=200); om = opf_setup(c, opt)
    vv, ll, nn, _ = om.get_idx(); nx, nlin, nnl = om.getN('var'), om.getN('lin'), om.getN('nln')
    x = rng.uniform(.4, 1.1, nx); ok = bool(rng.rand() < .8)
    mu = {'var': {s: mult(rng, nx) for s in 'lu'}, 'lin': {s: mult(rng, nlin) for s in 'lu'}}
    if not dc: mu['nln'] = {s: mult(rng, nnl) for s in 'lu'}
    tabs = {n: c[n].copy() for n in ('bus', 'gen', 'branch')}
    for n, cols in (('gen', (MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN)), ('branch', (MU_ANGMIN, MU_ANGMAX))):
        for j in cols: tabs[n][:, j] = mult(rng, len(tabs[n]))
    import copy
    seen = []
    def fake(om_, opt_, *a):
        seen.append(1)
        return dict(copy.deepcopy(tabs), baseMVA=base, om=om_, x=x.copy(), f=1.5, mu=copy.deepcopy(mu)), ok, {'xr': x.copy(), 'pimul': 0, 'info': 1, 'output': {}}
    nm = 'dcopf_solver' if dc else 'pipsopf_solver'
    if not hasattr(sys.modules['pypower.opf_execute'], nm): raise Skip()
    with Patch('pypower.opf_execute', nm, fake): r, s, raw = opf_execute(om, opt)
    if not seen: raise Skip()
    need(s is ok or s == ok, 'success')
    for n in om.var['order']:
        if not om.getN('var', n): continue
        sl = slice(vv['i1'][n], vv['iN'][n]); needclose(r['var']['val'][n], x[sl], 'value of ' + n)
        for d in 'lu': needclose(r['var']['mu'][d][n], mu['var'][d][sl], 'shadow price of ' + n)
    for kind, idx in (('lin', ll), ('nln', nn)):
        for n in getattr(om, kind)['order']:
            if om.getN(kind, n):
                for d in 'lu': needclose(r[kind]['mu'][d][n], mu[kind][d][idx['i1'][n]:idx['iN'][n]], 'shadow price of ' + n)
    e = tabs['branch'].copy()
    if ok:
        e[:, [MU_ANGMIN, MU_ANGMAX]] = 0; i = om.userdata('iang')
        if om.getN('lin', 'ang'):
            for j, d in ((MU_ANGMIN, 'l'), (MU_ANGMAX, 'u')): e[i, j] = mu['lin'][d][ll['i1']['ang']:ll['iN']['ang']] * np.pi / 180
    needclose(r['branch'], e, 'branch table')
    if ok and not dc:
        data = om.userdata('Apqdata'); tot = lambda g, u, l: g[:, u] - g[:, l]
        for kk, (u, l) in enumerate(((MU_PMAX, MU_PMIN), (MU_QMAX, MU_QMIN))):
            e = tot(tabs['gen'], u, l)
            for n, ix, a in (('PQh', data['ipqh'], data['h']), ('PQl', data['ipql'], data['l'])):
                if om.getN('lin', n):
                    sl = slice(ll['i1'][n], ll['iN'][n]); m = mu['lin']['u'][sl] - mu['lin']['l'][sl]
                    for i, mm, aa in zip(ix, m, a): e[i] += mm * aa[kk] / base
            needclose(tot(r['gen'], u, l), e, 'total marginal value of the unit limits')
        needclose(r['gen'][:, VG], tabs['bus'][tabs['gen'][:, GEN_BUS].astype(int), VM], 'voltage set points')
    p1 = om.userdata('pwl1'); nf = vv['iN']['Pg' if dc else 'Qg']
    want = np.r_[x[:nf], np.zeros(len(p1)), x[nf:]]
    needclose(r['x'], want, 'point with dummies for converted costs'); needclose(raw['xr'], want, 'raw point')
    return (dc, ok, len(p1) > 0, om.getN('lin', 'ang') > 0)
def rt_split(rng, k):
    ng = rng.randint(1, 6); gen = np.zeros((ng, 25)); base = rng.choice([100., 50.])
    h, l = [np.flatnonzero(rng.rand(ng) < .5) for _ in range(2)]
    for cc_ in (MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN): gen[:, cc_] = mult(rng, ng)
    mh, ml = rng.uniform(-9, 9, len(h)), rng.uniform(-9, 9, len(l)); Ah, Al = rng.uniform(-1, 1, (len(h), 2)), rng.uniform(-1, 1, (len(l), 2))
    g0 = gen.copy(); g = update_mupq(base, gen, mh, ml, {'ipqh': h, 'ipql': l, 'h': Ah, 'l': Al})
    for kk, (up, lo) in enumerate(((MU_PMAX, MU_PMIN), (MU_QMAX, MU_QMIN))):
        e = g0[:, up] - g0[:, lo]
        for i, m, a in zip(h, mh, Ah): e[i] -= m * a[kk] / base
        for i, m, a in zip(l, ml, Al): e[i] -= m * a[kk] / base
        needclose(g[:, up] - g[:, lo], e, 'total marginal value'); need((g[:, up] >= 0).all() and (g[:, lo] >= 0).all() and not (g[:, up] * g[:, lo]).any(), 'one non-negative multiplier per limit pair')
    return (len(h) > 0, len(l) > 0)
def rt_solve(rng, k):
    """a real OPF on external numbering with rows out of service: the results restate its solution"""
    dc = bool(rng.rand() < .4)
    c = G.external_case(rng, isolated=False, shifts=False); ng = c['gen'].shape[0]; gen = c['gen']
    c['gencost'] = G.gencost_for(rng, ng, ('quad',) if dc or rng.rand() < .5 else ('quad', 'pwl'))
    c['branch'][:, RATE_A] *= 3; gen[:, PMIN] = 0; gen[:, PMAX] = np.maximum(gen[:, PMAX], c['bus'][:, PD].sum() * 2 / ng); gen[:, QMIN] -= 60; gen[:, QMAX] += 60; c['bus'][:, VMIN] = .85; c['bus'][:, VMAX] = 1.15
    if rng.rand() < .5: i = rng.randint(ng); gen[i, PC1], gen[i, PC2], gen[i, QC1MAX], gen[i, QC2MAX], gen[i, QC1MIN], gen[i, QC2MIN] = 0, gen[i, PMAX], gen[i, QMAX], gen[i, QMAX] * .4, gen[i, QMIN], gen[i, QMIN] * .4
    if rng.rand() < .7:         # results of an earlier run in the tables
        widened(c)
        for t_, cols in (('bus', (LAM_P, LAM_Q, MU_VMAX, MU_VMIN)), ('gen', (PG, QG, MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN)), ('branch', (PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX))):
            for j in cols: c[t_][:, j] = rng.uniform(1, 9, c[t_].shape[0])
    c['branch'][rng.rand(len(c['branch'])) < .4, ANGMAX] = 3.0
    c0 = {n: (v.copy() if isinstance(v, np.ndarray) else v) for n, v in c.items()}
    import warnings
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try: r = opf_fn(c, ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=dc, OPF_ALG_DC=200))
        except RuntimeError: raise Skip()
    if not r['success']: raise Skip()
    bus, g, br = r['bus'], r['gen'], r['branch']; num = {int(b): i for i, b in enumerate(bus[:, 0])}; base = r['baseMVA']
    ong, onb = c0['gen'][:, GEN_STATUS] > 0, c0['branch'][:, BR_STATUS] == 1
    need(not g[~ong][:, [PG, QG, MU_PMAX, MU_PMIN]].any() and not br[~onb][:, [PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX]].any(), 'out-of-service rows report zero')
    f, to = ([num[int(b)] for b in br[:, j]] for j in (F_BUS, T_BUS))
    V = bus[:, VM] * np.exp(1j * np.deg2rad(bus[:, VA])); inj = np.zeros(len(bus), complex)
    for i, b in enumerate(g[:, GEN_BUS]): inj[num[int(b)]] += ong[i] * (g[i, PG] + 1j * g[i, QG])
    inj -= bus[:, PD] + 1j * bus[:, QD]
    out = np.zeros(len(bus), complex); np.add.at(out, f, br[:, PF] + 1j * br[:, QF]); np.add.at(out, to, br[:, PT] + 1j * br[:, QT])
    if dc: needclose(inj.real - bus[:, GS], out.real, 'balance of the reported powers', 1e-3)
    else: needclose(inj - np.abs(V) ** 2 * (bus[:, GS] - 1j * bus[:, BS]), out, 'balance of the reported powers', 2e-2)
    tot = 0.
    for i in np.flatnonzero(ong):
        q = c0['gencost'][i]; n = int(q[NCOST])
        tot += sum(q[COST + j] * g[i, PG] ** (n - 1 - j) for j in range(n)) if q[MODEL] == POLYNOMIAL else np.interp(g[i, PG], q[COST:COST + 2 * n:2], q[COST + 1:COST + 2 * n:2]) if q[COST] <= g[i, PG] <= q[COST + 2 * n - 2] else np.nan
    if np.isfinite(tot): needclose(r['f'], tot, 'the cost reported is that of the outputs reported', 1e-2 * (1 + abs(tot)) ** .5)
    mus = np.r_[g[:, [MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN]].ravel(), br[:, [MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX]].ravel(), bus[:, [MU_VMAX, MU_VMIN]].ravel()]
    need((mus >= -1e-9).all(), 'limit multipliers are not negative'); need(not br[(br[:, RATE_A] == 0) | (br[:, RATE_A] >= 1e10)][:, [MU_SF, MU_ST]].any(), 'no price on unlimited branches')
    noang = (br[:, ANGMIN] <= -360) & (br[:, ANGMAX] >= 360)
    need(not br[noang][:, [MU_ANGMIN, MU_ANGMAX]].any(), 'no price on branches without angle limits')
    if dc:      # an interior unit sets the price at its bus
        for i in np.flatnonzero(ong):
            q = c0['gencost'][i]
            needclose(bus[num[int(g[i, GEN_BUS])], LAM_P], 2 * q[COST] * g[i, PG] + q[COST + 1] + g[i, MU_PMAX] - g[i, MU_PMIN], 'price at the bus of a unit is its marginal cost plus its limit multipliers', .05)
    return (dc, bool((~ong).any()), bool((~onb).any()))
LEMMAS = split_lemmas()
FILES = ['pipsopf_solver', 'dcopf_solver', 'update_mupq', 'opf_execute', 'opf']
RUNTIME = [RT('solvers, given a solution', rt_solver, 120, 3000, FILES[:2], 'networks up to 9 buses; arbitrary solution vectors'), RT('driver, given a solution', rt_execute, 80, 2000, ['opf_execute', 'update_mupq', 'opf_model'], 'networks up to 9 buses; arbitrary solution vectors'), RT('capability multipliers', rt_split, 100, 2000, FILES[2:3], 'up to 5 units'),
           RT('real solutions', rt_solve, 12, 300, FILES, 'networks up to 9 buses, solved by the interior point solver')]
LEVEL = 'proof'
ASSUMPTIONS = ['the case is in internal form with the multiplier columns present (opf adds them: proved)', 'the optimiser returns arbitrary vectors of the right length: nothing else is assumed of it',
               'DC polynomial costs have two or three coefficients', 'success and the presence of capability curves, angle limits, converted costs and user blocks are enumerated', 'the start point of the optimiser is outside the property', 'raw derivatives are not requested', 'some bus is a reference bus']
EXPLANATION = 'pipsopf_solver and dcopf_solver under contract for arbitrary solution and multiplier vectors (the optimiser by assumed contract): what is handed to the optimiser is the model (constraints, bounds, cost with its constant, callbacks), every result column is the solution in engineering units; update_mupq and opf_execute by contract and the lemma that the split keeps the total; opf from input case to zeroed rows'
TRUSTED = ['pips / qps_pypower: any vectors of the right length', 'opf_model.linear_constraints, getv by the contracts of C20']
