"""A symbolic OPF model: variables Va, Vm, Pg, Qg (per unit), y (piecewise linear costs), z (user)."""
from pv import terms as t, arrays as A, solve
from pv.arrays import SArray, Size, dimaxis, fixaxis, cataxis
from pv.verify import Claim, snapshot
from .net import *
from .c15 import poly, cost_table, NC, WID
from pypower.opf_model import opf_model
from pypower.idx_cost import *

class OM(object): pass
def opf(S, y=True, z=True, q=False, user=True, model=(1, 2), kk=True, on=False):
    """symbolic model + point; returns an object with the parts"""
    o = OM()
    nb, ng, nl = S.dim('nb', 2, 3), S.dim('ng', 1, 3), S.dim('nl', 1, 3)
    o.nb, o.ng, o.nl = nb, ng, nl
    S.pre.extend(nonempty(nb))
    o.base = S.scalar('baseMVA', 'p')
    blocks = [('Va', nb, 'r'), ('Vm', nb, 'p'), ('Pg', ng, 'r'), ('Qg', ng, 'r')]
    if y: o.ny = S.dim('ny', 1, 3); S.pre.append(A.any_over(o.ny, lambda i: t.TRUE)); blocks.append(('y', o.ny, 'r'))
    if z: o.nz = S.dim('nz', 1, 3); blocks.append(('z', o.nz, 'r'))
    o.blocks = blocks
    o.xa = cataxis([b[1] for b in blocks])
    o.names = ['x.' + b[0] for b in blocks]
    for (n, ax, k) in blocks: S.samplers['x.' + n] = (k, None)
    o.x = SArray([o.xa], lambda ix: t.inp('x.' + blocks[ix[0]][0], (ix[1],), blocks[ix[0]][2]), 'f')
    o.get = lambda n, i: o.x.num(([b[0] for b in blocks].index(n), i))
    o.bus = bus_table(S, nb); o.branch = branch_table(S, nl); o.gen = gen_table(S, ng, cols={7: ('const', 1)} if on else None); o.gen0 = snapshot(o.gen)
    o.gencost = cost_table(S, cataxis([ng, ng]) if q else ng, model, WID)
    o.q = q; o.has = {b[0] for b in blocks}
    m = opf_model({'baseMVA': o.base, 'bus': o.bus, 'gen': o.gen, 'branch': o.branch, 'gencost': o.gencost})
    at = []
    for n, ax, k in blocks:
        m.var['idx']['i1'][n] = Size(at) if at else 0
        at = at + [ax]
        m.var['idx']['iN'][n] = Size(at); m.var['idx']['N'][n] = Size([ax]); m.var['order'].append(n)
    m.var['N'] = Size(at); m.var['NS'] = len(blocks)
    o.user = user
    if user:
        nw = o.nw = S.dim('nw', 1, 3)
        o.N = S.array('N', [nw, o.xa], storage='sparse'); o.N.opaque = True; o.Cw = S.array('Cw', [nw])
        for n in ('H',): S.samplers[n] = ('r', None)
        # H is symmetric: upper triangle by identity of the unordered pair
        h = lambda i, j: t.inp('H', (i, j)) + t.inp('H', (j, i))
        o.H = SArray([nw, nw], h, 'f', 'sparse')
        o.dd = SArray([nw], lambda i: S.inp('dd', (i,), 'e(1,2)'), 'f')
        o.rh = S.array('rh', [nw]); o.mm = S.array('mm', [nw])
        o.kk = SArray([nw], lambda i: S.inp('kk', (i,), 'p'), 'f') if kk else SArray([nw], lambda i: t.ZERO, 'f')
        S.pre.append(o.N.nnz.nonempty())       # an all-zero N means there are no user costs
        m.cost['params'] = {'N': o.N, 'Cw': o.Cw, 'H': o.H, 'dd': o.dd, 'rh': o.rh, 'kk': o.kk, 'mm': o.mm}
    else:
        import numpy as np
        m.cost['params'] = {'N': np.zeros((0, 1)), 'Cw': np.zeros(0), 'H': np.zeros((0, 0)), 'dd': np.ones(0), 'rh': np.zeros(0), 'kk': np.zeros(0), 'mm': np.ones(0)}
    o.om = m
    return o

def user_cost(o):
    """documented generalised cost"""
    Nx = A.matmul(o.N, o.x)
    r = lambda i: Nx.num(i) - o.rh.num(i)
    k = lambda i: o.kk.num(i)
    below = lambda i: t.br(t.lt0(r(i) + k(i))); above = lambda i: t.br(t.lt0(k(i) - r(i)))
    nodead = lambda i: t.br(t.cmp_eq(r(i), t.ZERO)) * t.br(t.cmp_eq(k(i), t.ZERO))
    rr = lambda i: r(i) + below(i) * k(i) - above(i) * k(i)
    U = lambda i: below(i) + above(i) + nodead(i)
    lin = lambda i: t.br(t.cmp_eq(o.dd.num(i), t.q(1))); quad = lambda i: t.br(t.cmp_eq(o.dd.num(i), t.q(2)))
    w = lambda i: o.mm.num(i) * U(i) * (lin(i) + quad(i) * rr(i)) * rr(i)
    return A.sum_over(o.nw, lambda i: o.Cw.num(i) * w(i)) + t.HALF * A.sum_over(o.nw, lambda i: A.sum_over(o.nw, lambda j: w(i) * o.H.num(i, j) * w(j)))
def gen_cost(o):
    ispol = lambda r: t.br(t.cmp_eq(o.gencost.num(r, MODEL), t.q(2)))
    row_ = (lambda b, g: (b, g)) if o.q else (lambda b, g: g)
    f = t.ZERO
    for b, n in enumerate(('Pg', 'Qg') if o.q else ('Pg',)):
        f = f + A.sum_over(o.ng, lambda g: ispol(row_(b, g)) * poly(o.gencost, row_(b, g), o.get(n, g) * o.base))
    if 'y' in o.has: f = f + A.sum_over(o.ny, lambda i: o.get('y', i))
    return f
def objective(o): return gen_cost(o) + (user_cost(o) if o.user else t.ZERO)
def grad(o, f, ix):
    """derivative of a closed form with respect to variable ix of x"""
    return t.diff(f, 'x.' + o.blocks[ix[0]][0], (ix[1],))

# ---- run-time: an OPF model of a random case built by the package itself -----------------
import numpy as np
from . import gen as G
from pypower.opf_setup import opf_setup
from pypower.ppoption import ppoption
def cost1(row, x):
    n = int(row[NCOST])
    if row[MODEL] == POLYNOMIAL: return sum(row[COST + j] * x ** (n - 1 - j) for j in range(n))
    raise ValueError
def real_om(rng, kinds=('poly', 'pwl'), q=False, user=True, nz=0, easy=True, **opts):
    """real opf_model with optional user costs over the standard variables (and nz user variables)"""
    from scipy.sparse import csr_matrix
    c = G.internal_case(rng, offs=False, **{})
    ng = c['gen'].shape[0]; nb = c['bus'].shape[0]
    c['gencost'] = G.gencost_for(rng, ng, kinds, q=q)
    c = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in c.items() if k in ('version', 'baseMVA', 'bus', 'gen', 'branch', 'gencost')}
    c.setdefault('version', '2')
    om = opf_setup(c, ppoption(VERBOSE=0, OUT_ALL=0, **opts))
    if nz: om.add_vars('z', nz, np.zeros(nz), -np.ones(nz), np.ones(nz))
    if user:
        nw = rng.randint(1, 5); nx = om.getN('var')
        nd = lambda: csr_matrix(rng.uniform(-2, 2, (nw, nx)) * (rng.rand(nw, nx) < .4))
        cp = {'N': nd(), 'Cw': rng.uniform(-2, 2, nw)}
        if rng.rand() < .7:
            H = rng.uniform(-1, 1, (nw, nw)); cp['H'] = csr_matrix(H + H.T)
        if rng.rand() < .7: cp['dd'] = rng.randint(1, 3, nw).astype(float)
        if rng.rand() < .7: cp['rh'] = rng.uniform(-1, 1, nw)
        if rng.rand() < .7: cp['kk'] = rng.uniform(.1, .6, nw)
        if rng.rand() < .7: cp['mm'] = rng.uniform(-2, 2, nw)
        om.add_costs('usr', cp, list(om.var['order']) if rng.rand() < .5 else [])
    om.build_cost_params()
    return om, c
def real_objective(om, x):
    """objective by its definition, plain loops"""
    c = om.get_ppc(); vv = om.get_idx()[0]; base = c['baseMVA']; gc = c['gencost']
    ng = c['gen'].shape[0]
    P = x[vv['i1']['Pg']:vv['iN']['Pg']]; Q = x[vv['i1']['Qg']:vv['iN']['Qg']]
    f = 0.
    for g in range(gc.shape[0]):
        if gc[g, MODEL] == POLYNOMIAL: f += cost1(gc[g], (P[g] if g < ng else Q[g - ng]) * base)
    if 'y' in vv['N']: f += sum(x[vv['i1']['y']:vv['iN']['y']])
    cp = om.cost['params']
    N = cp['N']
    if hasattr(N, 'nnz') and N.nnz:
        N = N.toarray(); nw = N.shape[0]
        H = cp['H'].toarray() if hasattr(cp['H'], 'toarray') else np.array(cp['H'])
        w = np.zeros(nw)
        for i in range(nw):
            r = sum(N[i, j] * x[j] for j in range(len(x))) - cp['rh'][i]; k = cp['kk'][i]
            if r < -k: s = r + k
            elif r > k: s = r - k
            elif k == 0: s = r
            else: continue
            w[i] = cp['mm'][i] * (s if cp['dd'][i] == 1 else s * s)
        f += .5 * sum(w[i] * H[i, j] * w[j] for i in range(nw) for j in range(nw)) + sum(cp['Cw'][i] * w[i] for i in range(nw))
    return f
def cdiff(f, x, h=1e-6):
    """central differences (vector result in rows per variable)"""
    out = []
    for k in range(len(x)):
        e = np.zeros(len(x)); e[k] = h
        out.append((np.asarray(f(x + e)) - np.asarray(f(x - e))) / (2 * h))
    return np.array(out)
def point(om, rng):
    """a point away from dead-zone edges"""
    from pv.runner import Skip
    x0 = om.getv()[0]
    x = np.where(np.isfinite(x0), x0, 0) + rng.uniform(-.15, .15, len(x0))
    cp = om.cost.get('params') or {}
    N = cp.get('N')
    if hasattr(N, 'nnz') and N.nnz:
        r = N * x - cp['rh']
        if np.any(np.abs(np.abs(r) - cp['kk']) < 1e-3): raise Skip()
    return x
