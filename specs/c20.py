from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from pv import terms as t, arrays as A, solve
from pv.arrays import SArray, Size, dimaxis, fixaxis, cataxis
from .net import eq, br, nonempty
from . import gen as G
from .gen import need, needclose
from .opfnet import opf, user_cost
import numpy as np, copy
from pypower.opf_model import opf_model

GW = {}
def size(ax): return Size([ax]).simp() if isinstance(Size([ax]), Size) else ax
def model(S, blocks):
    """model holding the named variable blocks (any sizes)"""
    m = opf_model({})
    at = []
    for n in blocks:
        ax = S.dim('n' + n, 0, 3)
        for d, dv in (('v0', 'v0'), ('vl', 'vl'), ('vu', 'vu')): m.var['data'][d][n] = S.array('%s.%s' % (dv, n), [ax])
        m.var['idx']['i1'][n] = Size(at) if at else 0
        at = at + [ax]
        m.var['idx']['iN'][n] = Size(at); m.var['idx']['N'][n] = Size([ax]); m.var['order'].append(n)
        m.var['NS'] += 1
    if at: m.var['N'] = Size(at)
    return m, [a for a in at]
def state(m): return copy.deepcopy({'var': keys(m.var), 'nln': keys(m.nln), 'lin': keys(m.lin), 'cost': keys(m.cost)})
def keys(d): return {k: (keys(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else None) for k, v in d.items()}
def same_size(a, b):
    d = a - b
    return isinstance(d, (int, np.integer)) and d == 0
def index_claims(part, name, before, n, what):
    """a new block takes the next n positions and nothing else moves"""
    i0, iN, N0 = before
    return [('%s: starts where the previous block ended' % what, lambda: same_size(part['idx']['i1'][name], N0)),
            ('%s: ends after its own size' % what, lambda: same_size(part['idx']['iN'][name], N0 + n)),
            ('%s: size recorded' % what, lambda: same_size(part['idx']['N'][name], n)),
            ('%s: total size' % what, lambda: same_size(part['N'], N0 + n)),
            ('%s: other blocks stay' % what, lambda: all(same_size(part['idx'][f][k], v) for f, d in (('i1', i0), ('iN', iN)) for k, v in d.items())),
            ('%s: order' % what, lambda: part['order'] == list(i0) + [name] and part['NS'] == len(i0) + 1)]
def before(part): return dict(part['idx']['i1']), dict(part['idx']['iN']), part['N']
def const(a, x, ax): return [('has its own length', lambda: a.ndim == 1 and A.match_axes(a.axes[0], ax) is None), ('default value', Claim([ax], lambda i: t.lift(a.entry(i)) - x))]
def arr(x): return x if isinstance(x, SArray) else A.aslift(np.asarray(x))

# ---- add_vars: one addition to any model ------------------------------------------------
def av_args(given, first):
    def f(S):
        m, ax = model(S, [] if first else ['old', 'older'])
        n = S.dim('n', 0, 3); GW.update(m=m, n=n, b=before(m.var), old={d: dict(m.var['data'][d]) for d in ('v0', 'vl', 'vu')}, st=state(m))
        a = [m, 'new', Size([n])]
        GW['given'] = [S.array(k, [n]) if g else None for k, g in zip(('v0', 'vl', 'vu'), given)]
        return a + [g if g is not None or i % 2 else np.array([]) for i, g in enumerate(GW['given'])]
    return f
def av_post(out, args, snap, ghost, it):
    W = dict(GW)
    m = args[0]; n = W['n']
    cl = index_claims(m.var, 'new', W['b'], Size([n]), 'variables')
    for k, g, d in zip(('v0', 'vl', 'vu'), W['given'], (t.ZERO, -t.INF, t.INF)):
        v = m.var['data'][k]['new']
        if g is not None: cl.append(('%s given' % k, Claim([n], lambda i, v=v, g=g: arr(v).num(i) - g.num(i))))
        else: cl += [('%s %s' % (k, a), b) for a, b in const(arr(v), d, n)]
        cl.append(('%s of other blocks' % k, lambda k=k: all(m.var['data'][k][o] is x for o, x in W['old'][k].items())))
    cl.append(('constraints and costs untouched', lambda: all(keys(getattr(m, p)) == W['st'][p] for p in ('nln', 'lin', 'cost'))))
    return cl
CASES = {'%s, bounds %s' % ('first block' if f else 'after other blocks', g): av_args(g, f) for f in (0, 1) for g in ((1, 1, 1), (0, 0, 0), (1, 0, 1), (0, 1, 0))}
cAv = register(FunContract(opf_model.add_vars, None, CASES, post=av_post, modifies=(0,), name='add_vars'))

# ---- add_constraints -----------------------------------------------------------------------
def ac_args(lin, vs, dl=False, du=False):
    def f(S):
        m, ax = model(S, ['a', 'b', 'c'])
        pr = S.dim('prev', 0, 3)
        for part in (m.lin, m.nln):
            part['idx']['i1']['old'] = 0; part['idx']['iN']['old'] = Size([pr]); part['idx']['N']['old'] = Size([pr]); part['N'] = Size([pr]); part['order'].append('old'); part['NS'] = 1
        n = S.dim('n', 0, 3)
        GW.update(n=n, b=before(m.lin if lin else m.nln), st=state(m), vs=vs)
        if not lin: return [m, 'new', Size([n]), 'nonlinear']
        by = dict(zip('abc', ax))
        cols = cataxis([by[v] for v in (vs or 'abc')])
        GW['A'] = S.array('A', [n, cols], storage='sparse'); GW['l'] = None if dl else S.array('l', [n]); GW['u'] = None if du else S.array('u', [n])
        GW['arg'] = list(vs) if vs else vs
        return [m, 'new', GW['A'], GW['l'] if not dl else np.array([]), GW['u'] if not du else np.array([])] + ([GW['arg']] if vs is not None else [])
    return f
def ac_post(out, args, snap, ghost, it):
    W = dict(GW)
    m = args[0]; n = W['n']; lin = len(args) > 4
    cl = index_claims(m.lin if lin else m.nln, 'new', W['b'], Size([n]), 'constraints')
    cl.append(('other parts untouched', lambda: all(keys(getattr(m, p)) == W['st'][p] for p in ('var', 'cost', 'nln' if lin else 'lin'))))
    if lin:
        d = m.lin['data']
        cl.append(('matrix', Claim([n, W['A'].axes[1]], lambda i, j: arr(d['A']['new']).num(i, j) - W['A'].num(i, j))))
        for k, g, x in (('l', W['l'], -t.INF), ('u', W['u'], t.INF)):
            if g is not None: cl.append((k, Claim([n], lambda i, k=k, g=g: arr(d[k]['new']).num(i) - g.num(i))))
            else: cl += [(k + ' ' + a, b) for a, b in const(arr(d[k]['new']), x, n)]
        cl.append(('variable sets', lambda: list(d['vs']['new']) == list(W['vs'] or ['a', 'b', 'c'])))
        cl.append(('all variables: the list of this moment', lambda: W['vs'] or d['vs']['new'] is not m.var['order']))
    return cl
CASES = {'nonlinear': ac_args(False, None), 'linear, some variables': ac_args(True, ['c', 'a']), 'linear, all variables': ac_args(True, []), 'linear, all variables by default': ac_args(True, None),
         'linear, no lower limit': ac_args(True, ['b'], dl=True), 'linear, no upper limit': ac_args(True, ['b', 'c'], du=True)}
cAc = register(FunContract(opf_model.add_constraints, None, CASES, post=ac_post, modifies=(0,), name='add_constraints'))

# ---- add_costs ---------------------------------------------------------------------------------
OPT = ('H', 'dd', 'rh', 'kk', 'mm')
def cost_block(S, nm, n, cols, opt):
    cp = {'N': S.array('N.' + nm, [n, cols], storage='sparse'), 'Cw': S.array('Cw.' + nm, [n])}
    if 'H' in opt: cp['H'] = S.array('H.' + nm, [n, n], storage='sparse')
    for k, kind in (('dd', 'e(1,2)'), ('rh', 'r'), ('kk', 'p'), ('mm', 'r')):
        if k in opt: cp[k] = SArray([n], lambda i, k=k, kind=kind: S.inp('%s.%s' % (k, nm), (i,), kind), 'f')
    return cp
def co_args(vs, opt):
    def f(S):
        m, ax = model(S, ['a', 'b', 'c'])
        pr = S.dim('prev', 0, 3); part = m.cost
        part['idx']['i1']['old'] = 0; part['idx']['iN']['old'] = Size([pr]); part['idx']['N']['old'] = Size([pr]); part['N'] = Size([pr]); part['order'].append('old'); part['NS'] = 1
        n = S.dim('n', 0, 3); by = dict(zip('abc', ax))
        cp = cost_block(S, 'new', n, cataxis([by[v] for v in (vs or 'abc')]), opt)
        GW.update(n=n, b=before(part), st=state(m), vs=vs, cp=dict(cp), opt=opt)
        return [m, 'new', cp, list(vs) if vs else vs]
    return f
def co_post(out, args, snap, ghost, it):
    W = dict(GW)
    m = args[0]; n = W['n']; d = m.cost['data']
    cl = index_claims(m.cost, 'new', W['b'], Size([n]), 'costs')
    cl.append(('other parts untouched', lambda: all(keys(getattr(m, p)) == W['st'][p] for p in ('var', 'lin', 'nln'))))
    for k in ('N', 'Cw') + OPT:
        if k in W['cp']: cl.append((k, Claim(W['cp'][k].axes, lambda *ix, k=k: arr(d[k]['new']).num(*ix) - W['cp'][k].num(*ix))))
        else: cl.append(('no ' + k, lambda k=k: 'new' not in d[k]))
    cl.append(('variable sets', lambda: list(d['vs']['new']) == list(W['vs'] or ['a', 'b', 'c'])))
    return cl
cCo = register(FunContract(opf_model.add_costs, None, {'%s, %s' % ('all variables' if not vs else ' '.join(vs), '+'.join(opt) or 'defaults'): co_args(vs, opt) for vs in (['b', 'a'], [], None) for opt in ((), OPT, ('kk',))}, post=co_post, modifies=(0,), name='add_costs'))

# ---- linear_constraints: assembled rows act on the full vector as each block on its own --------------
def lc_args(blocks):
    def f(S):
        m, ax = model(S, ['a', 'b', 'c']); by = dict(zip('abc', ax)); at = []
        GW.update(by=by, ax=ax, blocks=blocks, rows=[], m=m)
        for k, vs in enumerate(blocks):
            n = S.dim('r%d' % k, 0, 3); nm = 'blk%d' % k
            m.lin['idx']['i1'][nm] = Size(at) if at else 0; at = at + [n]
            m.lin['idx']['iN'][nm] = Size(at); m.lin['idx']['N'][nm] = Size([n]); m.lin['order'].append(nm); m.lin['NS'] += 1
            m.lin['data']['A'][nm] = S.array('A%d' % k, [n, cataxis([by[v] for v in vs])], storage='sparse')
            m.lin['data']['l'][nm] = S.array('l%d' % k, [n]); m.lin['data']['u'][nm] = S.array('u%d' % k, [n])
            m.lin['data']['vs'][nm] = list(vs); GW['rows'].append(n)
        m.lin['N'] = Size(at) if at else 0
        return [m]
    return f
def lc_post(out, args, snap, ghost, it):
    W = dict(GW)
    m = args[0]; rows = cataxis(W['rows']); cols = cataxis(W['ax'])
    if not isinstance(out, tuple) or len(out) != 3: return [('matrix and limits', lambda: False)]
    Am, l, u = out
    if Am is None: return [('no matrix only without rows', t.mknot(A.any_over(rows, lambda i: t.TRUE)))]
    Am, l, u = snapshot(Am), snapshot(l), snapshot(u)
    def blk(i): return (0, i) if rows.kind != 'cat' else i
    def entry(i, j):
        k, r = blk(i); v = 'abc'[j[0]]; vs = W['blocks'][k]
        if v not in vs: return t.ZERO
        a = m.lin['data']['A']['blk%d' % k]
        return a.num(r, (vs.index(v), j[1]) if len(vs) > 1 else j[1])
    return [('one row per constraint, one column per variable', lambda: A.match_axes(Am.axes[0], rows) is None and A.match_axes(Am.axes[1], cols) is None),
            ('rows', Claim([rows, cols], lambda i, j: Am.num(i, j) - entry(i, j))),
            ('lower limits', Claim([rows], lambda i: l.num(i) - m.lin['data']['l']['blk%d' % blk(i)[0]].num(blk(i)[1]))),
            ('upper limits', Claim([rows], lambda i: u.num(i) - m.lin['data']['u']['blk%d' % blk(i)[0]].num(blk(i)[1])))]
cLc = register(FunContract(opf_model.linear_constraints, None, {'blocks over %s' % ' | '.join(map(','.join, b)): lc_args(b) for b in ((), (('c', 'a'),), (('a', 'b', 'c'), ('b',)), (('b', 'c'), ('a',), ('c', 'b', 'a')))}, post=lc_post, name='linear_constraints'))

# ---- build_cost_params: the aggregate parameters act as each cost block on its own -----------------
def bc_args(blocks):
    """blocks: (variable sets, optional parameters given)"""
    def f(S):
        m, ax = model(S, ['a', 'b', 'c']); by = dict(zip('abc', ax)); at = []
        GW.update(by=by, ax=ax, blocks=blocks, rows=[], m=m)
        for k, (vs, opt) in enumerate(blocks):
            n = S.dim('r%d' % k, 0, 3); nm = 'blk%d' % k
            cp = cost_block(S, '%d' % k, n, cataxis([by[v] for v in vs]), opt)
            p = m.cost
            p['idx']['i1'][nm] = Size(at) if at else 0; at = at + [n]
            p['idx']['iN'][nm] = Size(at); p['idx']['N'][nm] = Size([n]); p['order'].append(nm); p['NS'] += 1
            for key in cp: p['data'][key][nm] = cp[key]
            p['data']['vs'][nm] = list(vs); GW['rows'].append(n)
        m.cost['N'] = Size(at) if at else 0
        return [m]
    return f
DEF = {'dd': t.ONE, 'rh': t.ZERO, 'kk': t.ZERO, 'mm': t.ONE}
def bc_post(out, args, snap, ghost, it):
    W = dict(GW)
    m = args[0]; P = m.cost.get('params')
    if not isinstance(P, dict): return [('parameters stored', lambda: False)]
    cl = [('names', lambda: set(P) == {'N', 'Cw', 'H', 'dd', 'rh', 'kk', 'mm'})]
    if not W['rows']: return cl + [('no rows', lambda: all(np.asarray(P[k]).shape[0] == 0 for k in P if not isinstance(P[k], SArray)))]
    rows = cataxis(W['rows']); cols = cataxis(W['ax'])
    def blk(i): return (0, i) if rows.kind != 'cat' else i
    def nent(i, j):
        k, r = blk(i); v = 'abc'[j[0]]; vs = W['blocks'][k][0]
        return t.ZERO if v not in vs else m.cost['data']['N']['blk%d' % k].num(r, (vs.index(v), j[1]) if len(vs) > 1 else j[1])
    def hent(i, j):
        (k, r), (k2, r2) = blk(i), blk(j)
        return m.cost['data']['H']['blk%d' % k].num(r, r2) if k == k2 and 'H' in W['blocks'][k][1] else t.ZERO
    def vec(key, i):
        k, r = blk(i)
        return m.cost['data'][key]['blk%d' % k].num(r) if key == 'Cw' or key in W['blocks'][k][1] else DEF[key]
    Q = {k: snapshot(v) for k, v in P.items()}
    return cl + [('one row per cost, one column per variable', lambda: A.match_axes(Q['N'].axes[0], rows) is None and A.match_axes(Q['N'].axes[1], cols) is None),
            ('N', Claim([rows, cols], lambda i, j: Q['N'].num(i, j) - nent(i, j))), ('H', Claim([rows, rows], lambda i, j: Q['H'].num(i, j) - hent(i, j)))] + \
           [(k, Claim([rows], lambda i, k=k: Q[k].num(i) - vec(k, i))) for k in ('Cw', 'dd', 'rh', 'kk', 'mm')]
FULL = tuple(OPT)
BL = {'one block, all parameters': ((('c', 'a'), FULL),), 'one block, defaults': ((('a', 'b', 'c'), ()),),
      'two blocks': ((('b',), ('H', 'rh')), (('c', 'b'), ('dd', 'kk', 'mm'))), 'three blocks': ((('a',), ('dd',)), (('b', 'c'), FULL), (('c', 'a', 'b'), ('rh',))), 'no blocks': ()}
cBc = register(FunContract(opf_model.build_cost_params, None, {k: bc_args(b) for k, b in BL.items()}, post=bc_post, modifies=(0,), name='build_cost_params'))

# ---- get_cost_params, getN, getv, get_idx ------------------------------------------------------------
def params(S, m, rows, ax):
    nw = cataxis(rows); cols = cataxis(ax)
    P = cost_block(S, 'full', nw, cols, FULL); m.cost['params'] = P
    at = []
    for k, n in enumerate(rows):
        nm = 'blk%d' % k; p = m.cost
        p['idx']['i1'][nm] = Size(at) if at else 0; at = at + [n]
        p['idx']['iN'][nm] = Size(at); p['idx']['N'][nm] = Size([n]); p['order'].append(nm); p['NS'] += 1
    m.cost['N'] = Size(at)
    return P
def gc_args(which, lo=1):
    def f(S):
        m, ax = model(S, ['a', 'b']); rows = [S.dim('r%d' % k, lo, 3) for k in range(3)]
        if lo:
            for r in rows: S.pre.extend(nonempty(r))
        P = params(S, m, rows, ax)
        GW.update(rows=rows, ax=ax, P=dict(P), m=m, which=which)
        return [m] + ([] if which is None else [which])
    return f
def gc_post(out, args, snap, ghost, it):
    W = dict(GW)
    if not isinstance(out, dict): return [('a parameter dict', lambda: False)]
    w = W['which']; m = W['m']
    cl = [('the model keeps its full parameters', lambda: all(m.cost['params'].get(k) is v for k, v in W['P'].items()) and len(m.cost['params']) == len(W['P'])),
          ('names', lambda: set(out) == set(W['P']))]
    k = int(w[3:]) if w else None
    rows = W['rows'][k] if w else cataxis(W['rows'])
    at = (lambda i: (k, i)) if w else (lambda i: i)
    Q = {a: snapshot(v) for a, v in out.items()}; P = W['P']
    cl += [('rows', lambda: all(A.match_axes(Q[a].axes[0], rows) is None for a in Q)),
           ('N', Claim([rows, cataxis(W['ax'])], lambda i, j: Q['N'].num(i, j) - P['N'].num(at(i), j))), ('H', Claim([rows, rows], lambda i, j: Q['H'].num(i, j) - P['H'].num(at(i), at(j))))]
    return cl + [(a, Claim([rows], lambda i, a=a: Q[a].num(i) - P[a].num(at(i)))) for a in ('Cw', 'dd', 'rh', 'kk', 'mm')]
cGc = register(FunContract(opf_model.get_cost_params, None, {'all': gc_args(None), 'first block': gc_args('blk0'), 'middle block': gc_args('blk1'), 'last block': gc_args('blk2')}, post=gc_post, name='get_cost_params'))

def gv_args(which, blocks):
    def f(S):
        m, ax = model(S, blocks); GW.update(m=m, ax=ax, which=which, blocks=blocks)
        return [m] + ([] if which is None else [which])
    return f
def gv_post(out, args, snap, ghost, it):
    W = dict(GW); w = W['which']
    if not isinstance(out, tuple) or len(out) != 3: return [('three vectors', lambda: False)]
    if w and w not in W['blocks'] or not W['blocks']: return [('empty', lambda: all(A.match_axes(arr(o).axes[0], fixaxis(0)) is None for o in out))]
    rows = W['ax'][W['blocks'].index(w)] if w else cataxis(W['ax'])
    at = (lambda i: (w, i)) if w else ((lambda i: (W['blocks'][i[0]], i[1])) if len(W['ax']) > 1 else lambda i: (W['blocks'][0], i))
    cl = []
    for k, o in zip(('v0', 'vl', 'vu'), out):
        o = snapshot(arr(o)); d = W['m'].var['data'][k]
        cl += [(k + ' length', lambda o=o: o.ndim == 1 and A.match_axes(o.axes[0], rows) is None), (k, Claim([rows], lambda i, o=o, d=d: o.num(i) - d[at(i)[0]].num(at(i)[1])))]
    return cl
cGv = register(FunContract(opf_model.getv, None, {'all of three': gv_args(None, ['a', 'b', 'c']), 'all of one': gv_args(None, ['a']), 'named': gv_args('b', ['a', 'b', 'c']), 'unknown name': gv_args('q', ['a', 'b']), 'empty model': gv_args(None, [])}, post=gv_post, name='getv'))

def gn_args(sel, name):
    def f(S):
        m, ax = model(S, ['a', 'b']); ax = {'var': ax}
        for s in ('lin', 'nln', 'cost'):
            p = getattr(m, s); ns = [S.dim(s + k, 0, 3) for k in 'ab']; ax[s] = ns
            for k, n in zip('ab', ns): p['idx']['N'][k] = Size([n])
            p['N'] = Size(ns)
        GW.update(ax=ax, sel=sel, nm=name, m=m)
        return [m, sel] + ([name] if name else [])
    return f
def gn_post(out, args, snap, ghost, it):
    W = dict(GW); a = W['ax'][W['sel']]; want = Size(a) if not W['nm'] else Size([a['ab'.index(W['nm'])]]) if W['nm'] in 'ab' else 0
    return [('size', lambda: same_size(out, want))]
cGn = register(FunContract(opf_model.getN, None, {'%s %s' % (s, n or 'total'): gn_args(s, n) for s in ('var', 'lin', 'nln', 'cost') for n in (None, 'a', 'b', 'q')}, post=gn_post, name='getN'))
def gi_args(S):
    m, ax = model(S, ['a', 'b']); GW.update(m=m); return [m]
cGi = register(FunContract(opf_model.get_idx, None, {'any model': gi_args}, post=lambda out, args, snap, ghost, it: [('variable, linear, nonlinear and cost indices', lambda m=GW['m']: isinstance(out, tuple) and len(out) == 4 and all(a is b for a, b in zip(out, (m.var['idx'], m.lin['idx'], m.nln['idx'], m.cost['idx']))))], name='get_idx'))

# ---- compute_cost -------------------------------------------------------------------------------------
def cc_args(kk):
    def f(S):
        o = opf(S, y=False, model=(2,), kk=kk); GW.update(o=o)
        return [o.om, o.x]
    return f
cCc = register(FunContract(opf_model.compute_cost, None, {'with dead zone': cc_args(True), 'without dead zone': cc_args(False)}, post=lambda out, args, snap, ghost, it: [('documented cost', Claim([], lambda o=GW['o']: t.lift(out) - user_cost(o)))], name='compute_cost'))
CONTRACTS = [cAv, cAc, cCo, cLc, cBc, cGc, cGv, cGn, cGi, cCc]

# ---- run time: random addition sequences on the real class -------------------------------------------
from scipy.sparse import csr_matrix
def rt_model(rng, k):
    m = opf_model({'baseMVA': 100.}); V = {}; order = []; N = 0
    def pick():
        vs = [v for v in order if rng.rand() < .6]; rng.shuffle(vs); return vs
    mk = lambda r, c: csr_matrix(rng.uniform(-2, 2, (r, c)) * (rng.rand(r, c) < .6))
    L, C, NL = [], [], []
    m.add_vars('v0', 2, np.zeros(2)); order.append('v0'); V['v0'] = [0, 2, np.zeros(2), -np.inf * np.ones(2), np.inf * np.ones(2)]; N = 2
    for step in range(rng.randint(3, 12)):
        kind = rng.randint(0, 4); nm = 'n%d' % step
        if kind == 0:
            n = rng.randint(0, 4); g = [rng.randn(n) if rng.rand() < .5 else None for _ in range(3)]
            m.add_vars(nm, n, *g); V[nm] = [N, N + n] + [x if x is not None else d * np.ones(n) if d else np.zeros(n) for x, d in zip(g, (0, -np.inf, np.inf))]; N += n; order.append(nm)
        elif kind == 1:
            vs = pick(); use = list(vs) or list(order); n = rng.randint(0, 4); Am = mk(n, sum(V[v][1] - V[v][0] for v in use))
            l = rng.randn(n) if rng.rand() < .6 else np.array([]); u = rng.randn(n) if rng.rand() < .6 else np.array([])
            m.add_constraints(nm, Am, l, u, vs if rng.rand() < .7 or vs else None)
            L.append((nm, use, Am.toarray(), l if len(l) or not n else -np.inf * np.ones(n), u if len(u) or not n else np.inf * np.ones(n)))
        elif kind == 2:
            n = rng.randint(0, 4); m.add_constraints(nm, n, 'nonlinear'); NL.append((nm, n))
        else:
            vs = pick(); use = list(vs) or list(order); n = rng.randint(1, 4)
            cp = {'N': mk(n, sum(V[v][1] - V[v][0] for v in use)), 'Cw': rng.randn(n)}
            if rng.rand() < .5: H = rng.randn(n, n); cp['H'] = csr_matrix(H + H.T)
            if rng.rand() < .5: cp['dd'] = rng.randint(1, 3, n).astype(float)
            if rng.rand() < .5: cp['rh'] = rng.randn(n)
            if rng.rand() < .5: cp['kk'] = rng.uniform(0, .5, n)
            if rng.rand() < .5: cp['mm'] = rng.randn(n)
            m.add_costs(nm, cp, vs); C.append((nm, use, {a: (b.toarray() if hasattr(b, 'toarray') else b) for a, b in cp.items()}))
    x = rng.randn(N); part = lambda use: np.concatenate([x[V[v][0]:V[v][1]] for v in use]) if use else np.zeros(0)
    vv, ll, nn, cc = m.get_idx()
    for v in order: need((vv['i1'][v], vv['iN'][v], vv['N'][v]) == (V[v][0], V[v][1], V[v][1] - V[v][0]), 'position of variables %s' % v)
    need(m.getN('var') == N and m.var['order'] == order, 'variable total')
    for got, j in zip(m.getv(), (2, 3, 4)): need(np.array_equal(got, np.concatenate([V[v][j] for v in order])), 'start values and bounds')
    for v in order:
        for got, j in zip(m.getv(v), (2, 3, 4)): need(np.array_equal(got, V[v][j]), 'start values and bounds of %s' % v)
    for part_, idx, items in (('lin', ll, [(a[0], a[2].shape[0]) for a in L]), ('nln', nn, NL), ('cost', cc, [(a[0], len(a[2]['Cw'])) for a in C])):
        at = 0
        for nm, n in items:
            need((idx['i1'][nm], idx['iN'][nm], idx['N'][nm], m.getN(part_, nm)) == (at, at + n, n, n), '%s block %s' % (part_, nm)); at += n
        need(m.getN(part_) == at, '%s total' % part_); need(m.getN(part_, 'absent') == 0, 'absent block')
    Am, l, u = m.linear_constraints()
    nr = sum(a[2].shape[0] for a in L)
    if nr:
        need(Am.shape == (nr, N), 'shape of assembled constraints')
        needclose(Am @ x, np.concatenate([a[2] @ part(a[1]) for a in L]), 'assembled rows', 1e-10)
        for got, j in ((l, 3), (u, 4)): need(np.array_equal(got, np.concatenate([a[j] for a in L])), 'assembled limits')
    def cost(use, cp):
        n = len(cp['Cw']); r = cp['N'] @ part(use) - cp.get('rh', np.zeros(n)); kk = cp.get('kk', np.zeros(n))
        s = np.where(r < -kk, r + kk, np.where(r > kk, r - kk, 0)); w = cp.get('mm', np.ones(n)) * np.where(cp.get('dd', np.ones(n)) == 1, s, s * s)
        return .5 * w @ cp.get('H', np.zeros((n, n))) @ w + cp['Cw'] @ w
    if C:
        m.build_cost_params()
        dense = lambda P: {a: (b.toarray() if hasattr(b, 'toarray') else np.array(b)) for a, b in P.items()}
        P0 = dense(m.get_cost_params())
        for rep in range(2):
            for nm, use, cp in C: needclose(m.compute_cost(x, nm), cost(use, cp), 'cost of %s' % nm, 1e-9)
            needclose(m.compute_cost(x), sum(cost(use, cp) for _, use, cp in C), 'total cost', 1e-9)
        P1 = dense(m.get_cost_params())
        need(all(np.array_equal(P0[a], P1[a]) for a in P0), 'evaluating the cost changed the model')
    return (len(order), len(L), len(C), nr)
RUNTIME = [RT('random addition sequences', rt_model, 250, 3000, ['add_vars', 'add_constraints', 'add_costs', 'linear_constraints', 'build_cost_params', 'compute_cost', 'getv', 'getN', 'get_idx', 'get_cost_params'], 'up to 12 additions of up to 3 rows')]
ASSUMPTIONS = ['add_vars/add_constraints/add_costs are proved for one addition to any model (the sequence property follows by induction on additions); assembly (linear_constraints, build_cost_params) is proved for models of up to 3 blocks of any size over up to 3 variable blocks of any size, longer sequences are run',
               'block names are distinct; cost blocks have at least one row when evaluated by name', 'the full-model cost check assumes a symmetric H']
EXPLANATION = 'each addition places its block directly after the previous one and leaves every other block alone; assembled constraints and cost parameters equal, entry by entry, each block placed on its own variables'
LEVEL = 'other'
