"""C28: the OPF model set up from a case, under contract; its callees (makeBdc, makeAvl, makeApq, makeAang, makeAy) by theirs."""
from pv.verify import FunContract, Claim, snapshot
from pv.runner import RT, Skip
from pv import terms as t, arrays as A
from pv.arrays import SArray, Size, dimaxis, fixaxis, cataxis
from .net import *
from .c15 import cost_table, WID
from .drv import stub, log, calls
from .c20 import same_size, arr
from . import gen as G
from .gen import need, needclose
import numpy as np
from pypower.opf_setup import opf_setup
from pypower.opf_model import opf_model
from pypower.ppoption import ppoption
from pypower.makeBdc import makeBdc
from pypower.makeAvl import makeAvl
from pypower.makeApq import makeApq
from pypower.makeAang import makeAang
from pypower.makeAy import makeAy
from pypower.idx_cost import *
from pypower.idx_bus import *
from pypower.idx_gen import *
from pypower.idx_brch import *

class W_(object): pass
def world(S, dc, alg=0, q=False, model=(1, 2), user=None, ucost=None):
    w = W_(); w.dc = dc; w.alg = alg; w.q = q; w.user = user; w.S = S; w.ucost = ucost; w.hasz = bool(user) and 'z' in user
    nb, ng, nl = w.nb, w.ng, w.nl = S.dim('nb', 1, 4), S.dim('ng', 1, 4), S.dim('nl', 1, 4)
    S.pre.extend(nonempty(nb)); w.base = S.scalar('baseMVA', 'p')
    w.bus = bus_table(S, nb); w.gen = gen_table(S, ng); w.branch = branch_table(S, nl)
    w.gencost = cost_table(S, cataxis([ng, ng]) if q else ng, model, WID)
    w.ppc = {'version': '2', 'baseMVA': w.base, 'bus': w.bus, 'gen': w.gen, 'branch': w.branch, 'gencost': w.gencost}
    w.opt = ppoption(PF_DC=dc, OPF_ALG=alg, VERBOSE=0, OUT_ALL=0)
    # what the callees give: anything of the right shape (C03, C19 say what)
    for n in ('npqh', 'npql', 'nvl', 'nang', 'ncony'): setattr(w, n, S.dim(n, 0, 3))
    w.std = [nb, ng] if dc else [nb, nb, ng, ng]
    w.B = S.array('B', [nb, nb], storage='sparse'); w.Bf = S.array('Bf', [nl, nb], storage='sparse'); w.Pbusinj = S.array('Pbusinj', [nb]); w.Pfinj = S.array('Pfinj', [nl])
    w.Avl = S.array('Avl', [w.nvl, cataxis([ng, ng])], storage='sparse'); w.lvl = S.array('lvl', [w.nvl]); w.uvl = S.array('uvl', [w.nvl]); w.ivl = S.array('ivl', [w.nvl])
    w.Apqh = S.array('Apqh', [w.npqh, cataxis([ng, ng])], storage='sparse'); w.ubpqh = S.array('ubpqh', [w.npqh]); w.Apql = S.array('Apql', [w.npql, cataxis([ng, ng])], storage='sparse'); w.ubpql = S.array('ubpql', [w.npql])
    w.data = {'h': S.array('Apqh.data', [w.npqh]), 'l': S.array('Apql.data', [w.npql])}
    w.Aang = S.array('Aang', [w.nang, nb], storage='sparse'); w.lang = S.array('lang', [w.nang]); w.uang = S.array('uang', [w.nang]); w.iang = S.array('iang', [w.nang])
    if user:
        w.na = S.dim('na', 1, 3); S.pre.extend(nonempty(w.na)); w.nz = S.dim('nz', 1, 3)
        full = [nb, nb, ng, ng] if not dc or user.endswith('ac') else [nb, ng]
        cols = full + ([w.nz] if 'z' in user else [])
        w.A = S.array('A', [w.na, cataxis(cols)], storage='sparse'); w.l = S.array('l', [w.na]); w.u = S.array('u', [w.na])
        w.ppc.update(A=w.A, l=w.l, u=w.u); w.lexp, w.uexp = w.l, w.u
        # the columns of the model's variables
        keep = [k for k in range(len(cols)) if len(full) == len(w.std) or k in (0, 2) or k >= 4]
        w.Ause = SArray([w.na, cataxis([cols[k] for k in keep])], lambda i, c: w.A.num(i, (keep[c[0]], c[1])), 'f')
        if 'z' in user:
            S.pre.extend(nonempty(w.nz))
            if dc and not user.endswith('ac'): S.pre.append(t.ascond(Size([w.nz]) < Size([nb, ng])))      # the code takes a wider matrix for one over the AC variables
            given = 'Z' in user
            zs_ = [S.array(n, [w.nz]) for n in ('z0', 'zl', 'zu')]
            if given: w.ppc.update(z0=zs_[0], zl=zs_[1], zu=zs_[2])
            w.zexp = tuple((lambda i, a=a: a.num(i)) for a in zs_) if given else ((lambda i: t.ZERO), (lambda i: -t.INF), (lambda i: t.INF))
    if ucost:
        w.nw = S.dim('nw', 1, 3); S.pre.extend(nonempty(w.nw))
        cols = w.std if not user else list(w.A.axes[1].parts)
        if dc and not user: pass
        w.N = S.array('N', [w.nw, cataxis(cols)], storage='sparse'); w.Cw = S.array('Cw', [w.nw]); w.ppc.update(N=w.N, Cw=w.Cw)
        w.cexp = {'N': SArray([w.nw, cataxis([cols[k] for k in (keep if user else range(len(cols)))])], lambda i, c: w.N.num(i, ((keep if user else range(len(cols)))[c[0]], c[1])), 'f'), 'Cw': w.Cw}
        if 'H' in ucost: w.cexp['H'] = w.ppc['H'] = S.array('H', [w.nw, w.nw], storage='sparse')
        if 'f' in ucost:
            w.fparm = w.ppc['fparm'] = S.table('fparm', w.nw, 4, {0: ('enum', (1, 2))})
            for k, n in enumerate(('dd', 'rh', 'kk', 'mm')): w.cexp[n] = SArray([w.nw], lambda i, k=k: w.fparm.num(i, k), 'f')
    return w
GW = {}
def case(**kw):
    def f(S):
        w = world(S, **kw); GW['w'] = w
        return [w.ppc, w.opt], {}
    return f
def cp(x): return x.copy() if isinstance(x, SArray) else dict(x) if isinstance(x, dict) else x
def late(name, res):
    def g(interp, *a, **k):
        log(interp, name, a)
        return tuple(cp(x) for x in res(GW['w'], a))
    return g
def ay(w, a):
    gc = a[2]
    w.yax = A.find(SArray([gc.axes[0]], lambda i: t.cmp_eq(gc.num(i, MODEL), t.q(1)), 'b')).axes[0]
    w.Ay = w.S.array('Ay', [w.ncony, cataxis(([w.ng] if w.dc else [w.ng, w.ng]) + [w.yax])], storage='sparse'); w.by = w.S.array('by', [w.ncony])
    return w.Ay, w.by
STUBS = [stub(fn, late(fn.__name__, r)) for fn, r in ((makeBdc, lambda w, a: (w.B, w.Bf, w.Pbusinj, w.Pfinj)), (makeAvl, lambda w, a: (w.Avl, w.lvl, w.uvl, w.ivl)),
         (makeApq, lambda w, a: (w.Apqh, w.ubpqh, w.Apql, w.ubpql, w.data)), (makeAang, lambda w, a: (w.Aang, w.lang, w.uang, w.iang)), (makeAy, ay))]
def same(name, a, b):
    """claims that an array equals another one"""
    if not isinstance(a, SArray): a = A.aslift(np.asarray(a)) if not np.isscalar(a) else a
    if not isinstance(a, SArray) or a.ndim != b.ndim: return [(name + ' is an array of the right rank', lambda: False)]
    for x, y in zip(a.axes, b.axes):
        r = A.match_axes(x, y)
        if r is not None: return [(name + ' has the right shape', lambda: False)]
    if a.ndim == 1: return [(name, Claim([b.axes[0]], lambda i: t.lift(a.entry(i)) - t.lift(b.entry(i))))]
    if b.axes[1].kind == 'fix': return [('%s column %d' % (name, j), Claim([b.axes[0]], lambda i, j=j: a.num(i, j) - b.num(i, j))) for j in range(b.axes[1].n)]
    return [(name, Claim(list(b.axes), lambda i, j: t.lift(a.entry(i, j)) - t.lift(b.entry(i, j))))]
def blocks(what, part, want):
    """the named blocks, in order, with their sizes"""
    names = [n for n, _ in want]
    cl = [(what + ' blocks', lambda: list(part['order']) == names and part['NS'] == len(names) and set(part['idx']['N']) == set(names))]
    if list(part['order']) != names or set(part['idx']['N']) != set(names): return cl
    at = 0
    for n, ax in want:
        sz = Size([ax])
        cl += [('%s %s starts where it should' % (what, n), lambda n=n, at=at: same_size(part['idx']['i1'][n], at)), ('%s %s size' % (what, n), lambda n=n, sz=sz: same_size(part['idx']['N'][n], sz))]
        at = at + sz
        cl.append(('%s %s end' % (what, n), lambda n=n, at=at: same_size(part['idx']['iN'][n], at)))
    cl.append((what + ' total', lambda: same_size(part['N'], at)))
    return cl
def single(gc, r): return t.mkand(t.cmp_eq(gc.num(r, MODEL), t.q(1)), t.cmp_eq(gc.num(r, NCOST), t.q(2)))
def converted(gc, rows, pick):
    """cost rows with single-segment piecewise linear costs as straight lines"""
    def f(r, j):
        r = pick(r); s = single(gc, r)
        x0, y0, x1, y1 = (gc.num(r, COST + k) for k in range(4)); m = (y1 - y0) / (x1 - x0)
        new = {MODEL: t.q(2), NCOST: t.q(2), COST: m, COST + 1: y0 - m * x0}
        return t.ite(s, new[j], gc.num(r, j)) if j in new else gc.num(r, j)
    return lambda j: Claim_col(rows, f, j)
def Claim_col(rows, f, j): return lambda i: f(i, j)
def V(ax, f): return SArray([ax], f, 'f')
def post(out, args_, snap, ghost, it):
    w = GW['w']; c0 = snap[0]
    base = w.base
    nb, ng, nl, dc = w.nb, w.ng, w.nl, w.dc
    if not hasattr(out, 'var') or not hasattr(out, 'lin'): return [('returns an OPF model', lambda: False)]
    om = out; cl = []
    bus, gen, branch, gc0 = c0['bus'], c0['gen'], c0['branch'], c0['gencost']
    # the case kept in the model
    ppc = om.ppc; gc = ppc['gencost']
    rows = ng if (dc or not w.q) else cataxis([ng, ng]); pick = (lambda r: (0, r)) if dc and w.q else (lambda r: r)
    if not isinstance(gc, SArray) or gc.axes[1].kind != 'fix' or gc.axes[1].n != gc0.axes[1].n or A.match_axes(gc.axes[0], rows) is not None: return [('cost table of the model has the expected rows', lambda: False)]
    new = converted(gc0, rows, pick)
    cl += [('cost data column %d' % j, Claim([rows], lambda i, j=j: gc.num(i, j) - new(j)(i))) for j in range(gc.axes[1].n)]
    for n, v in (('bus', bus), ('gen', gen), ('branch', branch)): cl += same('model ' + n, ppc[n], v)
    cl.append(('model base', lambda: ppc['baseMVA'] is base))
    # variables
    ispwl = lambda r: t.mkand(t.cmp_eq(gc0.num(pick(r), MODEL), t.q(1)), t.mknot(t.cmp_eq(gc0.num(pick(r), NCOST), t.q(2))))
    yax = A.find(SArray([rows], ispwl, 'b')).axes[0]
    names = list(om.var['order'])
    hasy = 'y' in names
    if w.alg in (545, 550): cl.append(('no cost variables for this solver', lambda: not hasy))
    elif hasy: cl.append(('cost variables only for piecewise linear costs', A.any_over(rows, ispwl)))
    else: cl.append(('cost variables for piecewise linear costs', t.mknot(A.any_over(rows, ispwl))))
    std = [('Va', nb), ('Pg', ng)] if dc else [('Va', nb), ('Vm', nb), ('Pg', ng), ('Qg', ng)]
    want = std + ([('y', yax)] if hasy else []) + ([('z', w.nz)] if w.hasz else [])
    cl += blocks('variables', om.var, want)
    d = om.var['data']
    isref = lambda i: t.cmp_eq(bus.num(i, BUS_TYPE), t.q(3))
    ang = lambda i: bus.num(i, VA) * t.PI / t.q(180)
    gb = lambda g: row(nb, gen, GEN_BUS, g)
    here = lambda i: (lambda g: A.ixeq(gb(g), i))
    last = lambda i: A.nth(dimaxis('ng', here(i)), -1)
    vm0 = lambda i: t.ite(A.any_over(ng, here(i)), gen.num(last(i), VG), bus.num(i, VM))
    pu = lambda c: (lambda g: gen.num(g, c) / base)
    exp = {'Va': (nb, ang, lambda i: t.ite(isref(i), ang(i), -t.INF), lambda i: t.ite(isref(i), ang(i), t.INF)), 'Vm': (nb, vm0, lambda i: bus.num(i, VMIN), lambda i: bus.num(i, VMAX)),
           'Pg': (ng, pu(PG), pu(PMIN), pu(PMAX)), 'Qg': (ng, pu(QG), pu(QMIN), pu(QMAX)), 'y': (yax, lambda i: t.ZERO, lambda i: -t.INF, lambda i: t.INF)}
    if w.hasz: exp['z'] = (w.nz,) + w.zexp
    for n, ax in want:
        for key, f in zip(('v0', 'vl', 'vu'), exp[n][1:]):
            if n not in d[key]: cl.append(('%s of %s' % (key, n), lambda: False)); continue
            cl += same('%s of %s' % (key, n), d[key][n], V(exp[n][0], f))
    # nonlinear constraints
    cl += blocks('nonlinear constraints', om.nln, [] if dc else [('Pmis', nb), ('Qmis', nb), ('Sf', nl), ('St', nl)])
    # linear constraints
    inf = lambda x: (lambda i: t.INF if x > 0 else -t.INF)
    lim = lambda l: t.mkand(t.mknot(t.cmp_eq(branch.num(l, RATE_A), t.ZERO)), t.lt0(branch.num(l, RATE_A) - t.q(10 ** 10)))
    il = A.find(SArray([nl], lim, 'b')); ila = il.axes[0]
    if dc:
        pq = cataxis([nb, ng])
        def amis(i, c):
            return w.B.num(i, c[1]) if c[0] == 0 else -t.br(A.ixeq(gb(c[1]), i))
        bmis = lambda i: -(bus.num(i, PD) + bus.num(i, GS)) / base - w.Pbusinj.num(i)
        at = lambda k: il.entry(k)
        at = lambda k: A.index_value(il, k) if hasattr(A, 'index_value') else k
        lin = [('Pmis', SArray([nb, pq], amis, 'f'), V(nb, bmis), V(nb, bmis), ['Va', 'Pg']),
               ('Pf', SArray([ila, nb], lambda k, j: w.Bf.num(k, j), 'f'), V(ila, inf(-1)), V(ila, lambda k: branch.num(k, RATE_A) / base - w.Pfinj.num(k)), ['Va']),
               ('Pt', SArray([ila, nb], lambda k, j: -w.Bf.num(k, j), 'f'), V(ila, inf(-1)), V(ila, lambda k: branch.num(k, RATE_A) / base + w.Pfinj.num(k)), ['Va'])]
    else:
        lin = [('PQh', w.Apqh, V(w.npqh, inf(-1)), w.ubpqh, ['Pg', 'Qg']), ('PQl', w.Apql, V(w.npql, inf(-1)), w.ubpql, ['Pg', 'Qg']), ('vl', w.Avl, w.lvl, w.uvl, ['Pg', 'Qg'])]
    lin.append(('ang', w.Aang, w.lang, w.uang, ['Va']))
    if hasy: lin.append(('ycon', w.Ay, V(w.ncony, inf(-1)), w.by, (['Pg'] if dc else ['Pg', 'Qg']) + ['y']))
    if w.user: lin.append(('usr', w.Ause, w.lexp, w.uexp, [n for n, _ in std] + (['z'] if w.hasz else [])))
    cl += blocks('linear constraints', om.lin, [(n, a.axes[0]) for n, a, _, _, _ in lin])
    for n, a, l, u, vs in lin:
        D = om.lin['data']
        if not all(n in D[k] for k in 'Alu') or n not in D['vs']: cl.append(('data of ' + n, lambda: False)); continue
        cl += same('matrix of ' + n, D['A'][n], a) + same('lower side of ' + n, D['l'][n], l) + same('upper side of ' + n, D['u'][n], u) + [('variables of ' + n, lambda vs=vs, n=n: list(D['vs'][n]) == vs)]
    # user costs
    cl += blocks('costs', om.cost, [('usr', w.nw)] if w.ucost else [])
    if w.ucost:
        C = om.cost['data']
        for n in ('N', 'Cw', 'H', 'dd', 'rh', 'kk', 'mm'):
            if n in w.cexp: cl += same('user cost ' + n, C[n]['usr'], w.cexp[n]) if 'usr' in C[n] else [('user cost ' + n, lambda: False)]
            else: cl.append(('no user cost ' + n, lambda n=n: 'usr' not in C[n]))
        cl.append(('variables of the user costs', lambda: list(C['vs'].get('usr', [])) == [n for n, _ in std] + (['z'] if w.hasz else [])))
    # the callees see the case
    def once(n):
        k = calls(ghost, n)
        return k[0].args if len(k) == 1 else None
    def tab(n, a, b): return same('%s sees the %s table' % (n, 'case'), a, b)
    for n, tabs in ((('makeBdc', (base, bus, branch)),) if dc else (('makeAvl', (base, gen)), ('makeApq', (base, gen)))) + (('makeAang', (base, branch, nb)),):
        a = once(n)
        if a is None: cl.append((n + ' is used once', lambda: False)); continue
        for k, x in enumerate(tabs):
            if isinstance(x, SArray): cl += same('%s argument %d' % (n, k), a[k], x)
            elif isinstance(x, t.T): cl.append(('%s base' % n, t.lift(a[k]) - x))
            else: cl.append(('%s size' % n, lambda a=a, k=k, x=x: same_size(a[k], Size([x]))))
        if n == 'makeAang': cl.append(('angle-limit options', lambda a=a: isinstance(a[3], dict) and dict(a[3]) == dict(w.opt)))
    if hasy:
        a = once('makeAy')
        if a is None: return cl + [('makeAy is used once', lambda: False)]
        cl += [('makeAy base', t.lift(a[0]) - base), ('makeAy size', lambda: same_size(a[1], Size([ng]))), ('first column of the outputs', lambda: same_size(a[3], 1)),
               ('first column of the cost variables', lambda: same_size(a[5], 1 + Size([ng]) if dc else 1 + Size([ng, ng])))]
        if not dc: cl.append(('first column of the reactive outputs', lambda: same_size(a[4], 1 + Size([ng]))))
        else: cl.append(('no column of reactive outputs', lambda: len(a[4]) == 0))
        cl += [('makeAy cost data column %d' % j, Claim([rows], lambda i, j=j: a[2].num(i, j) - new(j)(i))) for j in range(gc.axes[1].n)]
    return cl
CONTRACTS = []
def add(label, **kw): CONTRACTS.append(FunContract(opf_setup, None, {label: case(**kw)}, post=post, callees=STUBS, modifies=(0,), max_paths=600, name='opf_setup[%s]' % label))
add('DC', dc=True); add('AC', dc=False)
add('DC, reactive cost rows', dc=True, q=True); add('AC, reactive cost rows', dc=False, q=True)
add('DC, solver 545', dc=True, alg=545); add('AC, solver 550', dc=False, alg=550, model=(2,))
add('DC, user constraints', dc=True, user='A', model=(2,)); add('AC, user constraints', dc=False, user='A', model=(2,))
add('DC, user variables', dc=True, user='z', model=(2,)); add('AC, user variables with bounds', dc=False, user='zZ', model=(1, 2)); add('AC, user variables', dc=False, user='z', model=(2,))
add('DC, user constraints over AC variables', dc=True, user='A ac', model=(2,)); add('DC, user variables with bounds, constraints over AC variables', dc=True, user='zZ ac', model=(2,))
add('AC, user costs', dc=False, ucost='Hf', model=(2,)); add('AC, user costs, linear', dc=False, ucost='-', model=(2,)); add('DC, user costs', dc=True, ucost='Hf', model=(2,)); add('DC, user costs without H', dc=True, ucost='f', model=(2,))
add('AC, user variables and costs', dc=False, user='zZ', ucost='Hf', model=(2,))

# ---- run-time evaluation ----------------------------------------------------------------
from scipy.sparse import csr_matrix
from .c19 import opf_case
def rt_setup(rng, k):
    dc = bool(rng.rand() < .5)
    c = opf_case(rng, q=rng.rand() < .4); nb, ng, nl, base = c['bus'].shape[0], c['gen'].shape[0], c['branch'].shape[0], c['baseMVA']
    c = {n: (v.copy() if isinstance(v, np.ndarray) else v) for n, v in c.items() if n in ('version', 'baseMVA', 'bus', 'gen', 'branch', 'gencost')}
    c.setdefault('version', '2')
    bus, gen, br = c['bus'], c['gen'], c['branch']
    if rng.rand() < .3: bus[rng.rand(nb) < .4, BUS_TYPE] = REF
    # two-point piecewise linear rows become straight lines
    if c['gencost'].shape[1] < COST + 4: c['gencost'] = np.c_[c['gencost'], np.zeros((c['gencost'].shape[0], COST + 4 - c['gencost'].shape[1]))]
    for r in c['gencost']:
        if rng.rand() < .2:
            x0, x1 = sorted(rng.uniform(-20, 90, 2)); r[MODEL], r[NCOST] = PW_LINEAR, 2; r[COST:] = 0; r[COST:COST + 4] = x0, rng.uniform(0, 200), x1 + 1, rng.uniform(200, 900)
    br[rng.rand(nl) < .3, RATE_A] = rng.choice([0, 1e10, 2e10, 250, 9e9])
    for n in (VMAX, VMIN): bus[:, n] = bus[:, n] + rng.uniform(-.05, .05, nb)
    gen[:, VG] = rng.uniform(.93, 1.08, ng)
    std = [nb, ng] if dc else [nb, nb, ng, ng]; full = [nb, nb, ng, ng] if not dc or rng.rand() < .5 else [nb, ng]
    user = rng.rand() < .5; nz = rng.randint(0, 3) if user else 0
    if dc and len(full) == 2: nz = min(nz, nb + ng - 1)
    zz = None
    if user:
        na = rng.randint(1, 4); M = rng.uniform(-2, 2, (na, sum(full) + nz)) * (rng.rand(na, sum(full) + nz) < .6)
        if dc and len(full) == 4: M[:, nb:2 * nb] = 0; M[:, 2 * nb + ng:2 * nb + 2 * ng] = 0
        c['A'] = csr_matrix(M); c['l'] = -rng.uniform(0, 9, na); c['u'] = rng.uniform(0, 9, na)
        if nz and rng.rand() < .5: zz = [rng.uniform(-1, 1, nz), -rng.uniform(1, 3, nz), rng.uniform(1, 3, nz)]; c['z0'], c['zl'], c['zu'] = (z.copy() for z in zz)
    elif rng.rand() < .4:
        nw = rng.randint(1, 3); c['N'] = csr_matrix(rng.uniform(-1, 1, (nw, sum(std)))); c['Cw'] = rng.uniform(-1, 1, nw)
        if rng.rand() < .5: c['H'] = csr_matrix(np.eye(nw))
        if rng.rand() < .5: c['fparm'] = np.c_[np.ones(nw), rng.uniform(-1, 1, nw), np.abs(rng.uniform(0, .5, nw)), rng.uniform(.5, 2, nw)]
    import copy
    c0 = copy.deepcopy(c); alg = int(rng.choice([0, 560])) if rng.rand() < .8 else 545
    om = opf_setup(c, ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=dc, OPF_ALG=alg, OPF_ALG_DC=200))
    x0, xl, xu = om.getv()
    rows = c0['gencost'][:ng] if dc else c0['gencost']
    ny = 0 if alg == 545 else int(((rows[:, MODEL] == PW_LINEAR) & (rows[:, NCOST] != 2)).sum())
    va = bus[:, VA] * np.pi / 180; ref = bus[:, BUS_TYPE] == REF
    vm = bus[:, VM].copy()
    for g in gen: vm[int(g[GEN_BUS])] = g[VG]
    inf = np.full
    W = [('Va', va, np.where(ref, va, -np.inf), np.where(ref, va, np.inf))] + ([] if dc else [('Vm', vm, bus[:, VMIN], bus[:, VMAX])]) + [('Pg', gen[:, PG] / base, gen[:, PMIN] / base, gen[:, PMAX] / base)] + \
        ([] if dc else [('Qg', gen[:, QG] / base, gen[:, QMIN] / base, gen[:, QMAX] / base)]) + ([('y', np.zeros(ny), inf(ny, -np.inf), inf(ny, np.inf))] if ny else []) + \
        ([('z',) + (tuple(zz) if zz else (np.zeros(nz), inf(nz, -np.inf), inf(nz, np.inf)))] if nz else [])
    need(om.get_var_order() if hasattr(om, 'get_var_order') else True, 'order')
    need(list(om.var['order']) == [w[0] for w in W], 'variables', got=list(om.var['order']), expected=[w[0] for w in W])
    for j, (nm, got) in enumerate((('start', x0), ('lower', xl), ('upper', xu))):
        want = np.concatenate([w[1 + j] for w in W])
        need(got.shape == want.shape and np.allclose(np.where(np.isfinite(want), got, 0), np.where(np.isfinite(want), want, 0), atol=1e-12) and np.array_equal(np.isinf(got), np.isinf(want)) and (np.sign(got[np.isinf(want)]) == np.sign(want[np.isinf(want)])).all(), nm + ' values of the variables', got=got, expected=want)
    need(list(om.nln['order']) == ([] if dc else ['Pmis', 'Qmis', 'Sf', 'St']) and (dc or [om.getN('nln', n) for n in om.nln['order']] == [nb, nb, nl, nl]), 'nonlinear constraints')
    need(list(om.lin['order']) == (['Pmis', 'Pf', 'Pt', 'ang'] if dc else ['PQh', 'PQl', 'vl', 'ang']) + (['ycon'] if ny else []) + (['usr'] if user else []), 'linear constraint blocks', got=list(om.lin['order']))
    M, l, u = om.linear_constraints(); vv, ll, _, _ = om.get_idx(); x = rng.uniform(-1, 1, om.getN('var')); v = M @ x if om.getN('lin') else np.zeros(0)
    get = lambda n: x[vv['i1'][n]:vv['iN'][n]]
    sect = lambda n: (v[ll['i1'][n]:ll['iN'][n]], l[ll['i1'][n]:ll['iN'][n]], u[ll['i1'][n]:ll['iN'][n]])
    if dc:
        on = br[:, BR_STATUS] != 0; tap = np.where(br[:, TAP] == 0, 1, br[:, TAP]); f, to = br[:, F_BUS].astype(int), br[:, T_BUS].astype(int)
        flow = on * (get('Va')[f] - get('Va')[to] - br[:, SHIFT] * np.pi / 180) / br[:, BR_X] / tap
        bal = np.zeros(nb); np.add.at(bal, f, flow); np.add.at(bal, to, -flow); np.add.at(bal, gen[:, GEN_BUS].astype(int), -get('Pg')); bal += (bus[:, PD] + bus[:, GS]) / base
        a, b, d = sect('Pmis'); needclose(a - b, bal, 'power balance'); needclose(b, d, 'balance is an equality')
        lim = (br[:, RATE_A] != 0) & (br[:, RATE_A] < 1e10)
        for nm, s in (('Pf', 1), ('Pt', -1)):
            a, b, d = sect(nm); need(a.shape == (lim.sum(),), 'number of %s limits' % nm, got=a.shape[0], expected=int(lim.sum()))
            needclose(d - a, (br[:, RATE_A] / base - s * flow)[lim], 'flow limit ' + nm); need(np.isneginf(b).all(), 'no lower side')
    if ny:
        a, b, d = sect('ycon'); ys = get('y'); pw = [i for i in range(rows.shape[0]) if rows[i, MODEL] == PW_LINEAR and rows[i, NCOST] != 2]; over = []
        for y, i in zip(ys, pw):
            n = int(rows[i, NCOST]); px, pc = rows[i, COST:COST + 2 * n:2], rows[i, COST + 1:COST + 2 * n:2]; z = (get('Pg')[i] if i < ng else get('Qg')[i - ng]) * base
            over += [pc[j] + (pc[j + 1] - pc[j]) / (px[j + 1] - px[j]) * (z - px[j]) - y for j in range(n - 1)]
        need(len(over) == len(a) and sum(o > 1e-7 for o in over) == sum((a - d) > 1e-7), 'cost segments broken by a point', got=int(sum((a - d) > 1e-7)), expected=int(sum(o > 1e-7 for o in over)))
    if user:
        xa = np.concatenate([get('Va')] + ([get('Vm')] if not dc else [np.zeros(nb)] if len(full) == 4 else []) + [get('Pg')] + ([get('Qg')] if not dc else [np.zeros(ng)] if len(full) == 4 else []) + ([get('z')] if nz else []))
        a, b, d = sect('usr'); needclose(a, c0['A'] @ xa, 'user constraints'); needclose(b, c0['l'], 'user lower side'); needclose(d, c0['u'], 'user upper side')
    need(om.getN('cost') == (c0['N'].shape[0] if 'N' in c0 else 0), 'user costs')
    # single-segment costs keep their value
    gc = om.get_ppc()['gencost']
    from pypower.totcost import totcost
    P = rng.uniform(-30, 100, rows.shape[0])
    for i, r in enumerate(rows):
        if r[MODEL] == PW_LINEAR and r[NCOST] == 2:
            xa, ya, xb, yb = r[COST:COST + 4]; needclose(totcost(gc[[i]], P[[i]])[0], ya + (yb - ya) / (xb - xa) * (P[i] - xa), 'straight-line cost')
        else: need(np.array_equal(gc[i], r), 'cost row %d' % i)
    for n in ('bus', 'gen', 'branch'): need(np.array_equal(om.get_ppc()[n], c0[n]), 'case data of the model')
    return (dc, user, nz, ny > 0)
RUNTIME = [RT('the assembled model', rt_setup, 150, 4000, ['opf_setup', 'opf_args', 'opf_model', 'makeBdc', 'pqcost'], 'networks up to 9 buses')]
LEVEL = 'proof'
ASSUMPTIONS = ['the case is in internal form: consecutive buses, everything in service, 13/21/13 columns, cost rows for every generator (and a second set when reactive costs are given); user data A, l, u given together',
 'a user matrix of the DC formulation over DC variables has fewer columns than the AC variables (otherwise the code takes it for one over the AC variables)', 'makeBdc, makeAvl, makeApq, makeAang, makeAy give matrices of the shapes their own contracts state (C03, C19)',
 'no user callbacks', 'breakpoints of a two-point cost differ']
EXPLANATION = 'opf_setup with opf_args, loadcase, pqcost and the opf_model methods interpreted from source: variables, bounds, starting values, every constraint and cost block of the AC and DC formulation, with and without user data, for any network size'
