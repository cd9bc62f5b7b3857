"""C29: DC lines are lossy linked injections."""
from pv.verify import FunContract, Claim, snapshot
from pv.runner import RT, Skip
from pv import terms as t, arrays as A
from pv.arrays import SArray, Size, dimaxis, fixaxis, cataxis
from .net import *
from .c28 import same
from .c07 import masked
from . import gen as G
from .gen import need, needclose
import importlib, sys, copy, io, contextlib, warnings
import numpy as np
from pypower.opf_model import opf_model
from pypower.ppoption import ppoption
from pypower.idx_gen import *
from pypower.idx_bus import *
from pypower.idx_cost import MODEL, NCOST, COST, POLYNOMIAL, PW_LINEAR
from pypower import idx_dcline, idx_gen
import pypower.toggle_dcline
TD = sys.modules['pypower.toggle_dcline']
c = idx_dcline.c
gPMIN, gPMAX = idx_gen.PMIN, idx_gen.PMAX
W = {}
def on_(g): return t.ZERO < W['dc'].num(g, c['BR_STATUS'])
def world(S, ndccols=17):
    W.clear(); nb, ng, nd, nx = S.dim('nb', 1, 4), S.dim('ng', 1, 3), S.dim('nd', 1, 4), S.dim('nx', 1, 6); S.pre.extend(nonempty(nb, ng, nd, nx))
    dc = S.table('dcline', nd, ndccols, {0: ('index', 'nx'), 1: ('index', 'nx'), 2: ('enum', (0, 1)), 9: ('r', zs(.3)), 10: ('r', zs(.3))})
    S.ifs['e2i'] = ('nb', None); e2i = SArray([nx], lambda i: t.mk('idx', t.ifun('e2i', (i,), 'nb')), 'f')
    W.update(nb=nb, ng=ng, nd=nd, nx=nx, dc=snapshot(dc), w=ndccols); W['on'] = dimaxis('nd', on_)
    W['end'] = lambda k, col: t.ifun('e2i', (row(nx, dc, col, k),), 'nb')
    return dc, e2i

# ---- ext2int -----------------------------------------------------------------------------------
def ext_args(gcols, cost=None, ndccols=17):
    """cost: None (no costs in the case) | 'none' (no DC line costs) | (MODEL, NCOST, columns of gencost, columns of dclinecost)"""
    def f(S):
        dc, e2i = world(S, ndccols); nb, ng, nd = W['nb'], W['ng'], W['nd']
        bus = bus_table(S, nb); gen = gen_table(S, ng, ncols=gcols)
        ppc = {'version': '2', 'baseMVA': S.scalar('baseMVA', 'p'), 'bus': bus, 'gen': gen, 'dcline': dc, 'order': {'ext': {}, 'bus': {'e2i': e2i}}}
        W.update(bus=snapshot(bus), gen=snapshot(gen), cost=cost, e2i=e2i, gcols=gcols)
        if cost is not None:
            gw, dw = (cost[2], cost[3]) if cost != 'none' else (7, 0)
            gc = S.table('gencost', ng, gw, {}); ppc['gencost'] = gc; W['gc'] = snapshot(gc)
            if dw:
                dcc = S.table('dclinecost', nd, dw, {MODEL: ('const', cost[0]), NCOST: ('const', cost[1])}); ppc['dclinecost'] = dcc; W['dcc'] = snapshot(dcc); W['dcc0'] = dcc
        W['dc0'] = dc; W['ppc'] = ppc
        return [ppc, []]
    return f
def terminals():
    """the generators standing for the ends of DC line k, by their data"""
    dc = W['dc']; d = lambda k, n: dc.num(k, c[n])
    pf = lambda k: d(k, 'PF'); neg = lambda x: x < 0
    fmax0 = lambda k: t.ite(neg(d(k, 'PMIN')), t.INF, -d(k, 'PMIN')); fmin = lambda k: t.ite(neg(d(k, 'PMAX')), -t.INF, -d(k, 'PMAX'))
    # a terminal is not a dispatchable load: a zero upper limit is lowered by a millionth of a MW when the lower one is negative
    fload = lambda k: t.mkand(t.eq0(d(k, 'PMIN')), t.mknot(t.mkor(t.eq0(d(k, 'PMAX')), t.ZERO)) if False else t.ZERO < d(k, 'PMAX'))
    fload = lambda k: t.mkand(t.eq0(d(k, 'PMIN')), t.mkor(neg(d(k, 'PMAX')), t.ZERO < d(k, 'PMAX')))
    F = {GEN_BUS: None, PG: lambda k: -pf(k), QG: lambda k: d(k, 'QF'), VG: lambda k: d(k, 'VF'), QMIN: lambda k: d(k, 'QMINF'), QMAX: lambda k: d(k, 'QMAXF'), MBASE: lambda k: t.q(100), GEN_STATUS: lambda k: t.ONE, gPMAX: lambda k: t.ite(fload(k), t.q(-1) / 1000000, fmax0(k)), gPMIN: fmin}
    T = {GEN_BUS: None, PG: lambda k: pf(k) - d(k, 'LOSS0') - d(k, 'LOSS1') * pf(k), QG: lambda k: d(k, 'QT'), VG: lambda k: d(k, 'VT'), QMIN: lambda k: d(k, 'QMINT'), QMAX: lambda k: d(k, 'QMAXT'), MBASE: lambda k: t.q(100), GEN_STATUS: lambda k: t.ONE, gPMAX: lambda k: t.ite(neg(d(k, 'PMAX')), d(k, 'PMAX'), t.INF), gPMIN: lambda k: t.ite(neg(d(k, 'PMIN')), d(k, 'PMIN'), -t.INF)}
    return F, T
def ext_post(out, args, snap, ghost, it):
    ppc = W['ppc']; on, ng, nb, dc = W['on'], W['ng'], W['nb'], W['dc']; cl = [('the case itself', lambda a=out is ppc: a)]
    F, T = terminals(); gen = snapshot(ppc['gen']); want = cataxis([ng, on, on])
    cl.append(('two generators per line in service, after the others', lambda: A.match_axes(gen.axes[0], want) is None))
    if A.match_axes(gen.axes[0], want) is not None: return cl
    for j in range(W['gcols']):
        cl.append(('generators as given: column %d' % j, Claim([ng], lambda g, j=j: gen.num((0, g), j) - W['gen'].num(g, j))))
        for b, (X, e) in enumerate(((F, 'F_BUS'), (T, 'T_BUS'))):
            if j == GEN_BUS: cl.append(('%s of the terminal' % e, Claim([on], lambda k, b=b, e=e: t.br(A.ixeq(row(nb, gen, GEN_BUS, (b + 1, k)), W['end'](k, c[e]))) - 1)))
            else: cl.append(('%s terminal: column %d' % (e, j), Claim([on], lambda k, b=b, X=X, j=j: t.lift(gen.entry((b + 1, k), j)) - (X[j](k) if j in X else t.ZERO))))
    bus = snapshot(ppc['bus'])
    term = lambda i: A.any_over(on, lambda k: t.mkor(t.eqi(W['end'](k, 0), i), t.eqi(W['end'](k, 1), i)))
    isref = lambda i: t.cmp_eq(W['bus'].num(i, BUS_TYPE), t.q(REF))
    for j in range(13): cl.append(('bus column %d' % j, Claim([nb], (lambda i: bus.num(i, BUS_TYPE) - t.ite(t.mkand(term(i), t.mknot(isref(i))), t.q(PV), W['bus'].num(i, BUS_TYPE))) if j == BUS_TYPE else (lambda i, j=j: bus.num(i, j) - W['bus'].num(i, j)))))
    d = snapshot(ppc['dcline']); cl.append(('lines in service', lambda: A.match_axes(d.axes[0], on) is None))
    for j in range(W['w']):
        if j in (0, 1): cl.append(('line column %d: internal bus' % j, Claim([on], lambda k, j=j: t.br(A.ixeq(A.resolve(A.as_index(d.entry(k, j)), nb), W['end'](k, j))) - 1)))
        elif j == c['PT']: cl.append(('flow at the to end', Claim([on], lambda k: d.num(k, c['PT']) - T[PG](k))))
        else: cl.append(('line column %d' % j, Claim([on], lambda k, j=j: d.num(k, j) - dc.num(k, j))))
    e = ppc['order']['ext']; x = snapshot(e['dcline'])
    cl += same('lines outside', x, dc)
    for n, cond in (('on', on_), ('off', lambda k: t.mknot(on_(k)))):
        s = snapshot(e['status'][n]); ax = dimaxis('nd', cond)
        cl += [('status %s' % n, lambda s=s, ax=ax: s.ndim == 1 and A.mask_equiv(s.axes[0], ax)), ('status %s: the lines' % n, Claim([ax], lambda k, s=s: t.br(A.ixeq(A.resolve(A.as_index(s.entry(k)), W['nd']), k)) - 1))]
    cost = W['cost']
    if cost is None: cl.append(('no costs made up', lambda a='gencost' in ppc: not a)); return cl
    gc = snapshot(ppc['gencost']); w0, w1 = (7, 0) if cost == 'none' else cost[2:]
    w = max(w0, w1); cl.append(('a cost for each generator', lambda: A.match_axes(gc.axes[0], want) is None and A.match_axes(gc.axes[1], fixaxis(w)) is None))
    if A.match_axes(gc.axes[0], want) is not None: return cl
    zero = lambda k, j: t.q({0: 2, NCOST: 2}.get(j, 0))
    for j in range(w):
        cl.append(('costs as given: column %d' % j, Claim([ng], lambda g, j=j: gc.num((0, g), j) - (W['gc'].num(g, j) if j < w0 else t.ZERO))))
        cl.append(('no cost at the to end: column %d' % j, Claim([on], lambda k, j=j: gc.num((2, k), j) - zero(k, j))))
        if cost == 'none': cl.append(('no cost at the from end: column %d' % j, Claim([on], lambda k, j=j: gc.num((1, k), j) - zero(k, j))))
        else: cl.append(('cost of the flow: column %d' % j, Claim([on], lambda k, j=j: gc.num((1, k), j) - mirrored(W['dcc'], k, j, cost[0], cost[1]))))
    if cost != 'none':
        z = snapshot(ppc['dclinecost']); cl.append(('line costs in service', lambda: A.match_axes(z.axes[0], on) is None)); cl += [('line cost column %d' % j, Claim([on], lambda k, j=j: z.num(k, j) - W['dcc'].num(k, j))) for j in range(w1)]
        cl += same('line costs outside', snapshot(e['dclinecost']), W['dcc'])
    return cl
def mirrored(dcc, k, j, model, n):
    """the cost function of the flow p as the cost function of the injection -p"""
    if j < COST: return dcc.num(k, j)
    if model == POLYNOMIAL:
        if j >= COST + n: return t.ZERO
        e = COST + n - 1 - j                   # power
        return dcc.num(k, j) if e % 2 == 0 else -dcc.num(k, j)
    if j >= COST + 2 * n: return t.ZERO
    p, y = divmod(j - COST, 2); q = n - 1 - p
    return dcc.num(k, COST + 2 * q + 1) if y else -dcc.num(k, COST + 2 * q)
def ec(name, *a, **k): return FunContract(TD.userfcn_dcline_ext2int, None, {'any': ext_args(*a, **k)}, post=ext_post, modifies=(0,), name='userfcn_dcline_ext2int(%s)' % name, max_paths=600)
CONTRACTS = [ec('no costs', 21), ec('costs', 25, 'none'), ec('results table', 25, 'none', ndccols=23)]
CONTRACTS += [ec('line costs: polynomial of %d coefficients, %d and %d columns' % (n, a, b), 21, (2, n, a, b)) for n, a, b in ((1, 7, 7), (2, 7, 7), (3, 7, 9), (4, 10, 8))]
CONTRACTS += [ec('line costs: piecewise linear with %d points, %d and %d columns' % (n, a, b), 21, (1, n, a, b)) for n, a, b in ((2, 10, 8), (3, 7, 10))]

# ---- formulation ----------------------------------------------------------------------------------
def form_args(S):
    dc, e2i = world(S); on, ng = W['on'], W['ng']; base = S.scalar('baseMVA', 'p'); ax = cataxis([ng, on, on])
    d = SArray([on, fixaxis(17)], lambda k, j: dc.num(k, j), 'f'); gen = SArray([ax, fixaxis(21)], lambda i, j: t.inp('gen[%d].%d' % (int(j), i[0]), (i[1],)), 'f')
    om = opf_model({'version': '2', 'baseMVA': base, 'gen': gen, 'dcline': d}); W.update(om=om, ax=ax, base=base)
    om.var['idx']['i1']['Pg'] = 0; om.var['idx']['iN']['Pg'] = Size([ax]); om.var['idx']['N']['Pg'] = Size([ax]); om.var['order'].append('Pg'); om.var['N'] = Size([ax]); om.var['NS'] = 1
    return [om, []]
def form_post(out, args, snap, ghost, it):
    om, on, ng, ax, dc, base = [W[k] for k in ('om', 'on', 'ng', 'ax', 'dc', 'base')]; cl = []
    if out is not om or list(om.lin['order']) != ['dcline'] or list(om.var['order']) != ['Pg'] or om.cost['order'] or om.nln['order']: return [('the model with the loss equations and nothing else', lambda: False)]
    q = om.lin['data']; M, l, u = [snapshot(q[k]['dcline']) for k in ('A', 'l', 'u')]
    cl += [('on the outputs', lambda: [v['name'] if isinstance(v, dict) else v for v in q['vs']['dcline']] == ['Pg']), ('one row per line', lambda: A.match_axes(M.axes[0], on) is None and A.match_axes(M.axes[1], ax) is None and A.match_axes(l.axes[0], on) is None and A.match_axes(u.axes[0], on) is None)]
    if A.match_axes(M.axes[1], ax) is not None: return cl
    one = lambda i, j: t.br(A.ixeq(i, j))
    cl += [('no other generator', Claim([on, ng], lambda k, g: M.num(k, (0, g)))), ('from end: what arrives of it', Claim([on, on], lambda k, m: M.num(k, (1, m)) - one(k, m) * (1 - dc.num(k, c['LOSS1'])))), ('to end', Claim([on, on], lambda k, m: M.num(k, (2, m)) - one(k, m)))]
    cl += [('constant loss (%s)' % n, Claim([on], lambda k, x=x: x.num(k) + dc.num(k, c['LOSS0']) / base)) for n, x in (('lower', l), ('upper', u))]
    return cl
CONTRACTS.append(FunContract(TD.userfcn_dcline_formulation, None, {'any': form_args}, post=form_post, modifies=(0,)))

# ---- int2ext ---------------------------------------------------------------------------------------
def back_args(gcols, cost, w=17, inner=None):
    def f(S):
        dcl, e2i = world(S, w); dc = W['dc']; on, nd, ng = W['on'], W['nd'], W['ng']; ax = cataxis([ng, on, on]); S.ifs['int'] = ('nb', None)
        tab = lambda nm, cols: SArray([ax, fixaxis(cols)], lambda i, j: t.inp('%s[%d].%d' % (nm, int(j), i[0]), (i[1],)), 'f')
        gen = tab('gen', gcols); d = SArray([on, fixaxis(w)], lambda k, j: t.inp('dci[%d]' % int(j), (k,)) if int(j) < 2 else dc.num(k, j), 'f')
        st = {'on': masked(nd, on_)[0], 'off': masked(nd, lambda k: t.mknot(on_(k)))[0]}
        res = {'gen': gen, 'dcline': d, 'baseMVA': S.scalar('baseMVA', 'p'), 'order': {'state': 'i', 'ext': {'dcline': dcl, 'status': st}}}
        if cost: res['gencost'] = tab('gencost', 7); W['gc'] = snapshot(res['gencost'])
        if cost == 'line': dcc = S.table('dclinecost', nd, 7, {}); res['order']['ext']['dclinecost'] = dcc; res['dclinecost'] = SArray([on, fixaxis(7)], lambda k, j: dcc.num(k, j), 'f'); W['dcc'] = snapshot(dcc)
        W.update(gen=snapshot(gen), gcols=gcols, cost=cost, res=res)
        return [res, []]
    return f
def back_post(out, args, snap, ghost, it):
    on, nd, ng, dc, gen0 = [W[k] for k in ('on', 'nd', 'ng', 'dc', 'gen')]; cl = []
    gen = snapshot(out['gen']); cl.append(('the generators of the case only', lambda: A.match_axes(gen.axes[0], ng) is None))
    cl += [('generator column %d' % j, Claim([ng], lambda g, j=j: gen.num(g, j) - gen0.num((0, g), j))) for j in range(W['gcols'])]
    if W['cost']:
        gc = snapshot(out['gencost']); cl.append(('their costs only', lambda: A.match_axes(gc.axes[0], ng) is None)); cl += [('cost column %d' % j, Claim([ng], lambda g, j=j: gc.num(g, j) - W['gc'].num((0, g), j))) for j in range(7)]
    else: cl.append(('no costs made up', lambda a='gencost' in out: not a))
    if W['cost'] == 'line': cl += same('line costs as given', snapshot(out['dclinecost']), W['dcc'])
    d = snapshot(out['dcline']); mu = W['gcols'] > MU_QMIN; width = max(W['w'], 23 if mu else 17)
    cl.append(('every line, in the order given', lambda: A.match_axes(d.axes[0], nd) is None and A.match_axes(d.axes[1], fixaxis(width)) is None))
    f = lambda col: lambda k: gen0.num((1, k), col)
    to = lambda col: lambda k: gen0.num((2, k), col)
    R = {'PF': lambda k: -f(PG)(k), 'PT': to(PG), 'QF': f(QG), 'QT': to(QG), 'VF': f(VG), 'VT': to(VG)}
    if mu: R.update(MU_PMIN=lambda k: f(MU_PMAX)(k) + to(MU_PMIN)(k), MU_PMAX=lambda k: f(MU_PMIN)(k) + to(MU_PMAX)(k), MU_QMINF=f(MU_QMIN), MU_QMAXF=f(MU_QMAX), MU_QMINT=to(MU_QMIN), MU_QMAXT=to(MU_QMAX))
    R = {c[n]: x for n, x in R.items()}
    for j in range(width):
        old = (lambda k, j=j: dc.num(k, j)) if j < W['w'] else (lambda k: t.ZERO)
        new = R.get(j, old)
        cl.append(('line column %d in service' % j, Claim([on], lambda k, j=j, new=new: d.num(k, j) - new(k)))); cl.append(('line column %d out of service' % j, Claim([dimaxis('nd', lambda k: t.mknot(on_(k)))], lambda k, j=j, old=old: d.num(k, j) - old(k))))
    return cl
CONTRACTS += [FunContract(TD.userfcn_dcline_int2ext, None, {'any': back_args(g, k, w)}, post=back_post, modifies=(0,), name='userfcn_dcline_int2ext(%d generator columns, %d line columns, %s)' % (g, w, k or 'no costs')) for g, k, w in ((21, None, 17), (21, 'cost', 17), (25, 'cost', 17), (25, 'line', 17), (25, 'cost', 23), (21, 'cost', 23))]
LEMMAS = []

# ---- run time: solved cases with DC lines on the real code -------------------------------------------
def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore'); return f(*a)
def dc_case(rng, opf, cost=True):
    from pypower.t.t_case9_dcline import t_case9_dcline
    x = t_case9_dcline(); n = int(rng.randint(1, 5)); nums = x['bus'][:, BUS_I]; rows = []
    for _ in range(n):
        f, to = rng.choice(nums, 2, replace=False); kind = rng.randint(4); pf = rng.uniform(0, 8)
        lim = [(0, 10), (1, 10), (-8, 10), (-10, 0)][kind]; pf = min(max(pf, lim[0]), lim[1]) if kind < 3 else -pf
        rows.append([f, to, float(rng.rand() < .75), pf, 0, 0, 0, 1.0, 1.0, lim[0], lim[1], -10, 10, -10, 10, rng.choice([0.0, .5]), rng.choice([0.0, .02, .05])])
    x['dcline'] = np.array(rows); x['dclinecost'] = np.array([[2, 0, 0, 2, rng.uniform(0, 10), 0, 0, 0] if rng.rand() < .6 else [1, 0, 0, 2, -20, 0, 20, 100] for _ in rows], float)
    if not cost: del x['dclinecost']
    x['branch'][:, 11:13] = [-360, 360]; x['bus'] = x['bus'][:, :13]
    return x
def balance(r, case, name, ac, tol):
    bus, gen, d = r['bus'], r['gen'], r['dcline']; on = case['dcline'][:, 2] > 0
    need(gen.shape[0] == case['gen'].shape[0], name + ': the generators of the case only', rows=int(gen.shape[0]))
    need(d.shape[0] == len(on), name + ': every line reported'); needclose(d[:, :3], case['dcline'][:, :3], name + ': terminals and status as given')
    needclose(d[:, 9:17], case['dcline'][:, 9:17], name + ': limits and losses as given')
    needclose(d[~on][:, 3:9], case['dcline'][~on][:, 3:9], name + ': a line out of service as given')
    pf, pt = d[on, 3], d[on, 4]
    needclose(pt, pf - d[on, 15] - d[on, 16] * pf, name + ': what arrives is what is sent less the losses', tol=tol)
    idx = {int(b): i for i, b in enumerate(bus[:, 0])}; P = -bus[:, PD].copy(); Q = -bus[:, QD].copy()
    for g in gen:
        if g[GEN_STATUS] > 0: P[idx[int(g[0])]] += g[PG]; Q[idx[int(g[0])]] += g[QG]
    for k in np.flatnonzero(on): P[idx[int(d[k, 0])]] -= d[k, 3]; P[idx[int(d[k, 1])]] += d[k, 4]; Q[idx[int(d[k, 0])]] += d[k, 5]; Q[idx[int(d[k, 1])]] += d[k, 6]
    if ac: P -= bus[:, GS] * bus[:, VM] ** 2; Q += bus[:, BS] * bus[:, VM] ** 2
    else: P -= bus[:, GS]
    for b in r['branch']:
        if b[10] > 0:
            P[idx[int(b[0])]] -= b[13]; P[idx[int(b[1])]] -= b[15]
            Q[idx[int(b[0])]] -= b[14]; Q[idx[int(b[1])]] -= b[16]
    needclose(P, np.zeros(len(P)), name + ': real power balance of every bus', tol=tol)
    if ac: needclose(Q, np.zeros(len(Q)), name + ': reactive power balance of every bus', tol=tol)
def without(case):
    x = copy.deepcopy(case); on = x['dcline'][:, 2] > 0
    x['dcline'] = x['dcline'][on]
    if 'dclinecost' in x: x['dclinecost'] = x['dclinecost'][on]
    return x
def rt_pf(rng, k):
    from pypower.api import runpf, rundcpf
    case = dc_case(rng, False, cost=k % 3 == 0); ac = k % 2 == 0
    if k % 5 == 4: del case['gencost']; case.pop('dclinecost', None)
    o = ppoption(VERBOSE=0, OUT_ALL=0); run = runpf if ac else rundcpf
    r, ok = quiet(run, TD.toggle_dcline(copy.deepcopy(case), 'on'), o)
    if not ok: raise Skip()
    balance(r, case, 'power flow', ac, 1e-5)
    for col, e in ((3, 3),): needclose(r['dcline'][case['dcline'][:, 2] > 0, 3], case['dcline'][case['dcline'][:, 2] > 0, 3], 'power flow: the flow given')
    r2, ok2 = quiet(run, TD.toggle_dcline(without(case), 'on'), o)
    need(ok2, 'lines out of service have no effect: solved'); needclose(r['bus'][:, :13], r2['bus'][:, :13], 'lines out of service have no effect: buses'); needclose(r['gen'][:, :21], r2['gen'][:, :21], 'lines out of service have no effect: generators')
def rt_opf(rng, k):
    from pypower.api import runopf, rundcopf
    case = dc_case(rng, True, cost=k % 2 == 0); ac = k % 3 != 0
    if k % 4 == 3: case['dcline'][:, 2] = 0
    o = ppoption(VERBOSE=0, OUT_ALL=0); run = runopf if ac else rundcopf
    r = quiet(run, TD.toggle_dcline(copy.deepcopy(case), 'on'), o)
    if not r['success']: raise Skip()
    balance(r, case, 'OPF', ac, 2e-3); d = r['dcline']; on = case['dcline'][:, 2] > 0
    for x in d[on]:
        lo, hi = x[9], x[10]
        low = x[3] if lo >= 0 else x[4]; high = x[3] if hi >= 0 else x[4]
        need(low >= lo - 1e-3, 'OPF: lower flow limit at the sending end', flow=float(low), limit=float(lo)); need(high <= hi + 1e-3, 'OPF: upper flow limit at the sending end', flow=float(high), limit=float(hi))
        if ac:
            for v, a, b in ((5, 11, 12), (6, 13, 14)): need(x[a] - 1e-3 <= x[v] <= x[b] + 1e-3, 'OPF: reactive limits', value=float(x[v]))
    if 'dclinecost' in case: need(np.array_equal(r['dclinecost'], case['dclinecost']), 'OPF: line costs as given')
    from pypower.totcost import totcost
    f = totcost(r['gencost'], r['gen'][:, PG]).sum()
    for x, q in zip(d[on], case['dclinecost'][on] if 'dclinecost' in case else []): f += totcost(q[None, :], np.array([x[3]]))[0]
    needclose(r['f'], f, 'OPF: objective with the cost of the flows', tol=1e-3 * max(1, abs(f)) / 10)
    if k % 2: 
        r2 = quiet(run, TD.toggle_dcline(without(case), 'on'), o)
        need(r2['success'], 'lines out of service have no effect: solved'); needclose(r['f'], r2['f'], 'lines out of service have no effect: cost', tol=1e-4 * abs(f))
    r3 = quiet(run, copy.deepcopy(r), o); need(r3['success'] and r3['dcline'].shape == d.shape, 'the results can be solved again', shape=list(r3['dcline'].shape)); needclose(r3['f'], r['f'], 'the results solved again: cost', tol=1e-3 * abs(f))
def rt_toggle(rng, k):
    case = dc_case(rng, True); u0 = copy.deepcopy(case)
    x = TD.toggle_dcline(case, 'on'); n = {s: [e['fcn'] for e in v] for s, v in x['userfcn'].items()}
    need(set(n) == {'ext2int', 'formulation', 'int2ext', 'printpf', 'savecase'} and all(len(v) == 1 for v in n.values()), 'one callback per stage')
    y = TD.toggle_dcline(x, 'off'); need(not any(len(v) for v in y.get('userfcn', {}).values()), 'callbacks removed')
    for bad in (lambda: TD.toggle_dcline(copy.deepcopy(u0), 'maybe'), lambda: TD.toggle_dcline({k_: v for k_, v in u0.items() if k_ != 'dcline'}, 'on'), lambda: TD.toggle_dcline(dict(u0, dcline=u0['dcline'][:, :16]), 'on'), lambda: TD.toggle_dcline(dict(u0, dclinecost=u0['dclinecost'][:-1] if len(u0['dclinecost']) > 1 else np.zeros((2, 7))), 'on')):
        try: bad()
        except ValueError: continue
        need(False, 'a wrong call is refused')
    z = copy.deepcopy(u0); z['dcline'][:, 16] = -.01
    with warnings.catch_warnings(record=True) as w: warnings.simplefilter('always'); TD.toggle_dcline(z, 'on')
    need(len(w) == len(z['dcline']), 'a negative loss is warned of')
def rt_print(rng, k):
    from pypower.api import runpf, runopf, printpf
    case = dc_case(rng, True)
    if k % 2: case['dcline'][0, 2] = 0
    r = quiet(runopf, TD.toggle_dcline(case, 'on'), ppoption(VERBOSE=0, OUT_ALL=0)) if k % 3 == 0 else quiet(runpf, TD.toggle_dcline(case, 'on'), ppoption(VERBOSE=0, OUT_ALL=0))[0]
    f = io.StringIO(); quiet(printpf, r, f, ppoption(OUT_ALL=-1, OUT_LINE_LIM=2 if k % 2 else 1)); txt = f.getvalue()
    need('DC Line Data' in txt, 'the lines are printed'); body = txt[txt.index('DC Line Data'):].split('\n')[5:5 + len(case['dcline'])]
    for q, line in zip(r['dcline'], body):
        if q[2] > 0: need(line.split()[3] == '%.2f' % q[3] and line.split()[4] == '%.2f' % q[4], 'the flows printed are those solved', line=line, flow=float(q[3]))
def rt_data(rng, k):
    from pypower.ext2int import ext2int
    case = dc_case(rng, True); d0 = case['dcline']; n = len(d0); d0[:, 3:9] = rng.uniform(.5, 5, (n, 6)); d0[:, 11:15] = rng.uniform(-20, 20, (n, 4)); d0[:, 9] = rng.choice([-8.0, -3.0, 0.0, 2.0], n); d0[:, 10] = rng.choice([-1.0, 0.0, 4.0, 9.0], n); d0[:, 15:17] = rng.uniform(0, .1, (n, 2))
    q = case['dclinecost'] = np.zeros((n, 12 if k % 2 else 14))
    for i in range(n):
        if rng.rand() < .5: m = rng.randint(1, 5); q[i, :4] = [2, 0, 0, m]; q[i, 4:4 + m] = rng.uniform(-3, 3, m)
        else:
            m = rng.randint(2, 5); q[i, :4] = [1, 0, 0, m]; q[i, 4:4 + 2 * m:2] = np.sort(rng.uniform(-20, 20, m)); q[i, 5:5 + 2 * m:2] = np.sort(rng.uniform(0, 99, m))
    if k % 2: case['gen'] = np.c_[case['gen'], np.zeros((len(case['gen']), 25 - case['gen'].shape[1]))]
    x = TD.toggle_dcline(copy.deepcopy(case), 'on'); y = quiet(ext2int, x); on = np.flatnonzero(d0[:, 2] > 0); nd, ng = len(on), len(case['gen'])
    need(len(y['gen']) == ng + 2 * nd and len(y['gencost']) == ng + 2 * nd, 'two generators and costs per line in service')
    nums = y['order']['bus']['i2e']
    from pypower.totcost import totcost
    for j, i in enumerate(on):
        L = d0[i]; f, e = y['gen'][ng + j], y['gen'][ng + nd + j]; pt = L[3] - L[15] - L[16] * L[3]
        for nm, g, v in (('from', f, (L[0], -L[3], L[5], L[12], L[11], L[7], 1)), ('to', e, (L[1], pt, L[6], L[14], L[13], L[8], 1))): needclose([nums[int(g[0])], g[PG], g[QG], g[QMAX], g[QMIN], g[VG], g[GEN_STATUS]], v, 'the generator at the %s end' % nm)
        top, low = (-L[9] if L[9] >= 0 else np.inf), (-L[10] if L[10] >= 0 else -np.inf)
        if top == 0 and low < 0: need(-1e-5 < f[gPMAX] < 0, 'from end: not a dispatchable load'); f[gPMAX] = 0
        need(f[gPMAX] == top and f[gPMIN] == low, 'limits of the flow leaving the from end', line=L[9:11].tolist(), gen=[float(f[gPMAX]), float(f[gPMIN])])
        need(e[gPMIN] == (L[9] if L[9] < 0 else -np.inf) and e[gPMAX] == (L[10] if L[10] < 0 else np.inf), 'limits of the flow leaving the to end', line=L[9:11].tolist(), gen=[float(e[gPMAX]), float(e[gPMIN])])
        for p in rng.uniform(-15, 15, 3):
            try: want = totcost(q[i][None, :], np.array([p]))[0]
            except Exception: continue
            if q[i, 0] == 2 or q[i, 4] < p < q[i, 4 + 2 * int(q[i, 3]) - 2]: needclose(totcost(y['gencost'][ng + j][None, :], np.array([-p]))[0], want, 'cost of the flow', tol=1e-7)
        needclose(totcost(y['gencost'][ng + nd + j][None, :], np.array([7.0]))[0], 0.0, 'no cost at the to end')
    if y['gen'].shape[1] == 25:
        z = copy.deepcopy(y); z['gen'][ng:, [PG, QG, VG, MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN]] = rng.uniform(1, 9, (2 * nd, 7)); f, e = z['gen'][ng:ng + nd].copy(), z['gen'][ng + nd:].copy()
        r = TD.userfcn_dcline_int2ext(z, [])['dcline'][on]
        needclose(r[:, 3:9], np.c_[-f[:, PG], e[:, PG], f[:, QG], e[:, QG], f[:, VG], e[:, VG]], 'flows and voltages reported')
        needclose(r[:, 17:23], np.c_[f[:, MU_PMAX] + e[:, MU_PMIN], f[:, MU_PMIN] + e[:, MU_PMAX], f[:, MU_QMIN], f[:, MU_QMAX], e[:, MU_QMIN], e[:, MU_QMAX]], 'multipliers reported')
RUNTIME = [RT('the data of the terminals', rt_data, 80, 2000, ['toggle_dcline', 'userfcn_dcline_ext2int', 'userfcn_dcline_int2ext'], 'variations of a 9-bus case with up to 4 lines'),
           RT('power flow with DC lines', rt_pf, 40, 800, ['toggle_dcline', 'userfcn_dcline_ext2int', 'userfcn_dcline_int2ext'], 'variations of a 9-bus case with up to 4 lines'),
           RT('OPF with DC lines', rt_opf, 16, 240, ['toggle_dcline', 'userfcn_dcline_ext2int', 'userfcn_dcline_formulation', 'userfcn_dcline_int2ext'], 'variations of a 9-bus case with up to 4 lines'),
           RT('enabling and disabling', rt_toggle, 20, 200, ['toggle_dcline'], 'variations of a 9-bus case'), RT('printing', rt_print, 6, 40, ['userfcn_dcline_printpf'], 'variations of a 9-bus case')]
LEVEL = 'proof'
ASSUMPTIONS = ['line status flags are 0 or 1; the ends of a line in service are buses of the internal case; generator costs have no reactive part (dummy generators come after all of them)', 'the numbering conversion by contract (C13): the callbacks see the internal case and the map e2i', 'line costs enumerated: polynomials of 1 to 4 coefficients, 2 or 3 breakpoints, one kind per table; mixtures are evaluated at run time',
               'a from-end terminal whose upper limit is zero with a negative lower limit is lowered by a millionth of a MW, as documented in the code', 'the text of the savecase stage is outside the property']
EXPLANATION = 'the ext2int, formulation and int2ext callbacks under contract for tables of any size and any pattern of lines in service: the two generators of each line (bus, flow, losses, reactive and voltage data, limits, costs), bus types, the loss equation with its coefficients and right-hand side, and the reported flows and multipliers of every line with the original generators and costs put back'
FILES = ['toggle_dcline', 'add_userfcn', 'remove_userfcn', 'run_userfcn', 'opf_model']
