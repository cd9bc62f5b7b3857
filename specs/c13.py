from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from pv import terms as t, arrays as A, solve
from pv.arrays import SArray, Size, dimaxis, fixaxis
from .net import *
from . import gen as G
from .gen import need, needclose
import numpy as np, copy, warnings
from scipy.sparse import csr_matrix, issparse
from pypower.ext2int import ext2int, ext2int1
from pypower.int2ext import int2ext, int2ext1
from pypower.e2i_data import e2i_data
from pypower.i2e_data import i2e_data
from pypower.e2i_field import e2i_field
from pypower.i2e_field import i2e_field
from pypower.get_reorder import get_reorder
from pypower.set_reorder import set_reorder

CONTRACTS = []
LEMMAS = []
W = {}
AR = 3      # area rows (price reference buses)
def world(S, gencost=None, A_=None, dc=False, areas=False, extra=0):
    nb, ng, nl = S.dim('nb', 1, 4), S.dim('ng', 1, 4), S.dim('nl', 1, 4)
    W.update(nb=nb, ng=ng, nl=nl)
    num = ext_busnum(S, 'busnum13', 'extnum13', 'perm13'); W['num'] = num
    bus = S.table('bus', nb, 13, {0: num, 1: ('enum', (1, 2, 3, 4))})
    for f in ('gbus', 'fbus', 'tbus'): S.ifs[f] = ('nb', None)
    gen = S.table('gen', ng, 21, {0: lambda g: num(t.ifun('gbus', (g,), 'nb')), GEN_STATUS: ('enum', (0, 1, -1))})
    br = S.table('branch', nl, 13, {0: lambda l: num(t.ifun('fbus', (l,), 'nb')), 1: lambda l: num(t.ifun('tbus', (l,), 'nb')), BR_STATUS: ('enum', (0, 1))})
    ppc = {'version': '2', 'baseMVA': S.scalar('baseMVA'), 'bus': bus, 'gen': gen, 'branch': br}
    if areas:
        na = S.dim('na', 1, 3); W['na'] = na; S.ifs['abus'] = ('nb', None)
        ppc['areas'] = S.table('areas', na, 2, {1: lambda a: num(t.ifun('abus', (a,), 'nb'))})
        S.pre.append(A.any_over(na, lambda i: t.TRUE))
    if gencost: ppc['gencost'] = S.array('gencost', [A.cataxis([ng] * gencost), fixaxis(7)])
    for k in A_ or ():
        na = S.dim('nA', 1, 3)
        if dc:
            c = Size([nb, ng] + ([fixaxis(extra)] if extra else [])) < Size([nb, nb, ng, ng])
            if isinstance(c, t.T): S.pre.append(c)
        W['cols'] = A.cataxis(([nb, ng] if dc else [nb, nb, ng, ng]) + ([fixaxis(extra)] if extra else []))
        ppc[k] = S.array('user' + k, [na, W['cols']], storage='sparse')
    S.pre.append(A.any_over(nb, lambda i: on_bus(bus, i)))
    S.pre.append(A.any_over(ng, lambda g: on_gen(bus, gen, g))); S.pre.append(A.any_over(nl, lambda l: on_br(bus, br, l)))
    W['snap'] = {k: snapshot(v) for k, v in ppc.items() if isinstance(v, SArray)}
    return ppc
def gb(g): return t.ifun('gbus', (g,), 'nb')
def fb(l): return t.ifun('fbus', (l,), 'nb')
def tb(l): return t.ifun('tbus', (l,), 'nb')
def on_bus(bus, i): return t.mknot(t.cmp_eq(bus.num(i, 1), t.lift(4)))
def on_gen(bus, gen, g): return t.mkand(gen.num(g, GEN_STATUS) > 0, on_bus(bus, gb(g)))
def on_br(bus, br, l): return t.mkand(br.num(l, BR_STATUS) > 0, on_bus(bus, fb(l)), on_bus(bus, tb(l)))
def axes():
    """axes of what is in service"""
    s = W['snap']; bus, gen, br = s['bus'], s['gen'], s['branch']
    return (dimaxis('nb', lambda i: on_bus(bus, i)), dimaxis('ng', lambda g: on_gen(bus, gen, g)), dimaxis('nl', lambda l: on_br(bus, br, l)))
def same_rows(X, ax): return X.ndim == 2 and A.mask_equiv(X.axes[0], ax)
def intnum(axb, i): return t.mk('idx', A.position(axb, i))
def e2i_args(**k): return lambda S: [world(S, **k)]
class Eager(list):
    """facts about shapes are decided on the path, when the claim is made"""
    def append(self, c):
        if callable(c[1]) and not isinstance(c[1], Claim):
            r = bool(c[1]()); c = (c[0], lambda: r)
        list.append(self, c)
    def __iadd__(self, o):
        for c in o: self.append(c)
        return self
def e2i_post(out, args, snap, ghost, it):
    s = W['snap']; bus, gen, br = s['bus'], s['gen'], s['branch']; o = out['order']
    axb, axg, axl = axes()
    cl = Eager(); cl.append(('state', lambda: o['state'] == 'i'))
    def table(name, X, ax, rows, ncol, newcols, src):
        cl.append(('%s: rows in service' % name, lambda: same_rows(X, ax) and X.axes[1].isfix(ncol)))
        # the axis of the result stands for the rows in service; the engine decides this from the path
        pax = X.axes[0]
        for c in range(ncol):
            if c in newcols: cl.append(('%s column %d renumbered' % (name, c), Claim([pax], lambda i, c=c: X.num(i, c) - newcols[c](i))))
            else: cl.append(('%s column %d kept' % (name, c), Claim([pax], lambda i, c=c: X.num(i, c) - src.num(rows(i), c))))
    B, L, G_ = snapshot(out['bus']), snapshot(out['branch']), snapshot(out['gen'])
    pb, pg = B.axes[0], G_.axes[0]
    key = A.argsort(SArray([pg], lambda g: intnum(pb, gb(g)), 'f'))        # numpy's sort of the generators by internal bus number
    perm = lambda g: A.resolve(A.as_index(key.fn(g)), pg)
    inv = A.argsort(key)
    W['perm'] = perm
    ident = lambda i: i
    table('bus', B, axb, ident, 13, {0: lambda i: intnum(pb, i)}, bus)
    table('branch', L, axl, ident, 13, {0: lambda l: intnum(pb, fb(l)), 1: lambda l: intnum(pb, tb(l))}, br)
    table('gen', G_, axg, perm, 21, {0: lambda g: intnum(pb, gb(perm(g)))}, gen)
    # what is needed to go back
    for nm, T in (('bus', bus), ('branch', br), ('gen', gen)):
        X = snapshot(o['ext'][nm])
        cl.append(('ext %s: shape' % nm, lambda X=X, T=T: X.axes[0].same(T.axes[0]) and X.axes[1].same(T.axes[1])))
        for c in range(T.axes[1].n): cl.append(('ext %s column %d' % (nm, c), Claim([T.axes[0]], lambda i, c=c, X=X, T=T: X.num(i, c) - T.num(i, c))))
    for nm, ax, n in (('bus', axb, 'nb'), ('gen', axg, 'ng'), ('branch', axl, 'nl')):
        off = dimaxis(n, lambda i, ax=ax: t.mknot(ax.cond(i)))
        for w, x in (('on', ax), ('off', off)):
            I = snapshot(o[nm]['status'][w])
            cl.append(('%s %s: which' % (nm, w), lambda I=I, x=x: I.ndim == 1 and A.mask_equiv(I.axes[0], x)))
            cl.append(('%s %s: row numbers' % (nm, w), Claim([I.axes[0]], lambda i, I=I: I.num(i) - t.mk('idx', i))))
    i2e = snapshot(o['bus']['i2e']); cl.append(('bus i2e: shape', lambda: i2e.ndim == 1 and A.mask_equiv(i2e.axes[0], axb)))
    cl.append(('bus i2e', Claim([i2e.axes[0]], lambda i: i2e.num(i) - W['num'](i))))
    e2i = snapshot(o['bus']['e2i']); cl.append(('bus e2i', Claim([axb], lambda i: e2i.num(W['num'](i).a[0]) - intnum(pb, i))))
    ge, gi = snapshot(o['gen']['e2i']), snapshot(o['gen']['i2e'])
    cl.append(('gen e2i, i2e: shape', lambda: ge.ndim == gi.ndim == 1 and A.mask_equiv(ge.axes[0], axg) and A.mask_equiv(gi.axes[0], axg)))
    cl.append(('gen e2i sorts by bus', Claim([pg], lambda g: ge.num(g) - t.lift(key.fn(g))))); cl.append(('gen i2e undoes gen e2i', Claim([pg], lambda g: gi.num(g) - t.lift(inv.fn(g)))))
    if 'areas' in s:
        R = snapshot(out['areas']); ar = s['areas']; table('areas', R, dimaxis('na', lambda a: on_bus(bus, t.ifun('abus', (a,), 'nb'))), ident, 2, {1: lambda a: intnum(pb, t.ifun('abus', (a,), 'nb'))}, ar)
    if 'gencost' in s:
        C = snapshot(out['gencost']); c0 = s['gencost']; two = s['gencost'].axes[0].kind == 'cat'
        cl.append(('gencost: rows', lambda: (len(C.axes[0].parts) == 2 and all(A.mask_equiv(p, axg) for p in C.axes[0].parts) if two else A.mask_equiv(C.axes[0], axg)) and C.axes[1].isfix(7)))
        for b in (range(2) if two else (None,)):
            w = (lambda g, b=b: (b, g)) if two else (lambda g: g)
            cl += [('cost column %d follows the unit (%s)' % (c, b), Claim([pg], lambda g, c=c, w=w: C.num(w(g), c) - c0.num(w(perm(g)), c))) for c in range(7)]
    for k in ('A', 'N'):
        if k not in s: continue
        X, X0 = snapshot(out[k]), s[k]; P = X0.axes[1].parts
        cl.append(('%s: shape' % k, lambda X=X, X0=X0, P=P: X.storage == 'sparse' and X.axes[0].same(X0.axes[0]) and len(X.axes[1].parts) == len(P) and all(p.same(q) if q.kind == 'fix' else A.mask_equiv(p, axb if q.dim == 'nb' else axg) for p, q in zip(X.axes[1].parts, P))))
        for b, q in enumerate(P):
            f = perm if q.kind == 'dim' and q.dim == 'ng' else ident
            cl.append(('%s columns, block %d' % (k, b), Claim([X.axes[0], X.axes[1].parts[b]], lambda i, j, b=b, f=f, X=X, X0=X0: X.num(i, (b, j)) - X0.num(i, (b, f(j))))))
    return cl
CASES = [dict(), dict(gencost=1), dict(gencost=2), dict(A_='A', dc=True), dict(A_='AN', extra=2), dict(areas=True), dict(gencost=2, A_='N', dc=True, extra=1, areas=True)]
def cname(k): return ','.join('%s=%s' % x for x in k.items()) or 'tables only'
CONTRACTS += [FunContract(ext2int, None, {'any': e2i_args(**k)}, post=e2i_post, name='ext2int(%s)' % cname(k)) for k in CASES]
# ---- there and back -----------------------------------------------------------------------------
def there_and_back(ppc): return int2ext(ext2int(ppc))
def solved_back(ppc, vb, vl, vg):
    i = ext2int(ppc); o = i['order']
    i['bus'][:, 1:] = vb[o['bus']['status']['on'], 1:]
    i['branch'][:, 2:] = vl[o['branch']['status']['on'], 2:]
    i['gen'][:, 1:] = vg[o['gen']['status']['on'][o['gen']['e2i']], 1:]
    return int2ext(i)
def once_more(ppc): return ext2int(int2ext(ext2int(ppc)))
def again(ppc):
    i = ext2int(ppc)
    return ext2int(i)
def equal_tables(out, T, name, cl, new=None, on=None):
    X = snapshot(out)
    cl.append(('%s: shape' % name, lambda: X.ndim == T.ndim and all(x.same(y) for x, y in zip(X.axes, T.axes)) and X.storage == T.storage))
    if T.ndim == 2 and T.axes[1].kind == 'fix':
        for c in range(T.axes[1].n):
            if new is not None and c >= new[1]: cl.append(('%s column %d: solved values of what is in service' % (name, c), Claim([T.axes[0]], lambda i, c=c: X.num(i, c) - t.ite(on(i), new[0].num(i, c), T.num(i, c)))))
            else: cl.append(('%s column %d restored' % (name, c), Claim([T.axes[0]], lambda i, c=c: X.num(i, c) - T.num(i, c))))
    else: cl.append(('%s restored' % name, Claim(list(T.axes), lambda *ix: X.num(*ix) - T.num(*ix))))
def back_post(out, args, snap, ghost, it):
    s = W['snap']; cl = Eager()
    cl.append(('state', lambda: out['order']['state'] == 'e'))
    cl.append(('fields', lambda: set(out) == set(args[0]) | {'order'}))
    ons = dict(bus=lambda i: on_bus(s['bus'], i), gen=lambda g: on_gen(s['bus'], s['gen'], g), branch=lambda l: on_br(s['bus'], s['branch'], l))
    for k, T in s.items():
        new = None
        if len(args) == 4 and k in ons: new = dict(bus=(snap[1], 1), branch=(snap[2], 2), gen=(snap[3], 1))[k]
        equal_tables(out[k], T, k, cl, new, ons.get(k))
    return cl
def solved_args(**k):
    def f(S):
        ppc = world(S, **k); w = W['snap']
        return [ppc] + [S.array('solved' + n, [W[d], fixaxis(c)]) for n, d, c in (('B', 'nb', 13), ('L', 'nl', 13), ('G', 'ng', 21))]
    return f
def again_post(out, args, snap, ghost, it): return e2i_post(out, args, snap, ghost, it)
CONTRACTS += [FunContract(there_and_back, None, {'any': e2i_args(**k)}, post=back_post, name='int2ext(ext2int)(%s)' % cname(k)) for k in CASES]
CONTRACTS += [FunContract(solved_back, None, {'any': solved_args(**k)}, post=back_post, name='int2ext of solved values(%s)' % cname(k)) for k in CASES[:1] + CASES[-1:]]
CONTRACTS += [FunContract(once_more, None, {'any': e2i_args()}, post=e2i_post, name='ext2int(int2ext(ext2int))'),
              FunContract(again, None, {'any': e2i_args()}, post=e2i_post, name='ext2int of internal form')]

# ---- data and fields of one's own ---------------------------------------------------------------
def as_data(ppc, v, new, ordering, dim):
    i = ext2int(ppc)
    a = e2i_data(i, v, ordering, dim)
    return i, a, i2e_data(i, a, v, ordering, dim), i2e_data(i, get_reorder(new, where(i, v, ordering, dim), dim), v, ordering, dim)
def where(i, v, ordering, dim):
    """rows of internal form, as rows of external form"""
    o = i['order']; sets = [ordering] if isinstance(ordering, str) else ordering
    r = []; b = 0
    for x in sets:
        on = o[x]['status']['on']
        r.append(b + (on[o['gen']['e2i']] if x == 'gen' else on)); b = b + o['ext'][x].shape[0]
    if not isinstance(ordering, str) and v.shape[dim] > b: r.append(np.arange(b, v.shape[dim]))
    return np.concatenate(r) if len(r) > 1 else r[0]
where.__pv_interpret__ = True
def as_field(ppc, v, path, ordering, dim):
    i = ext2int(ppc); q = i
    for x in path[:-1]: q = q.setdefault(x, {})
    q[path[-1]] = v
    i = e2i_field(i, path if len(path) > 1 else path[0], ordering, dim); q = i
    for x in path: q = q[x]
    a = q.copy()
    i = i2e_field(i, path if len(path) > 1 else path[0], ordering, dim); q = i
    for x in path: q = q[x]
    return i, a, q
def own_axis(ordering, extra):
    d = {'bus': 'nb', 'gen': 'ng', 'branch': 'nl'}
    if isinstance(ordering, str): return W[d[ordering]]
    parts = [W[d[x]] for x in ordering] + ([fixaxis(extra)] if extra else [])
    return A.cataxis(parts) if len(parts) > 1 else parts[0]
def data_args(ordering, dim, nd, storage, extra, field=None):
    def f(S):
        ppc = world(S); m = S.dim('m', 1, 3); X = own_axis(ordering, extra)
        if extra:       # the sizes only show that there is a rest when something of each set exists
            pass
        ax = [X] if nd == 1 else [X, m] if dim == 0 else [m, X]
        v = S.array('v', ax, storage=storage); W['v'] = snapshot(v)
        if field: return [ppc, v, list(field), ordering, dim]
        new = S.array('new', ax, storage=storage); W['new'] = snapshot(new)
        return [ppc, v, new, ordering, dim]
    return f
def data_post(out, args, snap, ghost, it):
    i, a, back = out[0], snapshot(out[1]), snapshot(out[2]); v = W['v']; ordering, dim = args[3], args[4]; cl = Eager()
    axb, axg, axl = axes(); ax = {'bus': axb, 'gen': axg, 'branch': axl}
    e2i_post(i, args[:1], snap[:1], ghost, it)       # sets the generator permutation
    X, Y = v.axes[dim], a.axes[dim]
    xs = X.parts if X.kind == 'cat' else [X]; ys = Y.parts if Y.kind == 'cat' else [Y]
    sets = [ordering] if isinstance(ordering, str) else ordering
    other = [k for k in range(v.ndim) if k != dim]
    cl.append(('reordered: shape', lambda: a.ndim == v.ndim and a.storage == v.storage and len(xs) == len(ys) and all(a.axes[k].same(v.axes[k]) for k in other)
               and all(A.mask_equiv(y, ax[s]) for y, s in zip(ys, sets)) and all(x.same(y) for x, y in zip(xs[len(sets):], ys[len(sets):]))))
    if len(xs) != len(ys): return cl
    def at(f, k, o):
        ix = [None] * v.ndim; ix[dim] = k
        for p, q in zip(other, o): ix[p] = q
        return f.num(*ix)
    for b, y in enumerate(ys):
        w = (lambda j, b=b: (b, j)) if Y.kind == 'cat' else (lambda j: j)
        src = W['perm'] if b < len(sets) and sets[b] == 'gen' else (lambda j: j)
        cl.append(('reordered: block %d' % b, Claim([y] + [v.axes[k] for k in other], lambda j, *o, w=w, src=src: at(a, w(j), o) - at(v, w(src(j)), o))))
    equal_tables(back, v, 'and back', cl)
    if len(out) == 4:
        n = snapshot(out[3]); new = W['new']
        cl.append(('new values: shape', lambda: n.ndim == v.ndim and all(x.same(y) for x, y in zip(n.axes, v.axes))))
        for b, x in enumerate(xs):
            w = (lambda j, b=b: (b, j)) if X.kind == 'cat' else (lambda j: j)
            on = ax[sets[b]].cond if b < len(sets) else (lambda j: t.TRUE)
            cl.append(('new values in place, the rest kept: block %d' % b, Claim([x] + [v.axes[k] for k in other], lambda j, *o, w=w, on=on: at(n, w(j), o) - t.ite(on(j), at(new, w(j), o), at(v, w(j), o)))))
    else:
        path = args[2]
        cl.append(('only the field is stored', lambda: set(i['order']['ext']) == {'bus', 'branch', 'gen', path[0]} and set(i['order']['int']) == {path[0]}))
    return cl
def dname(ordering, dim, nd, storage, extra, field=None): return '%s dim %d of %d %s%s%s' % (ordering if isinstance(ordering, str) else '+'.join(ordering), dim, nd, storage, ' +%d' % extra if extra else '', ' ' + '.'.join(field) if field else '')
DATA = [('bus', 0, 1, 'dense', 0), ('gen', 0, 2, 'dense', 0), ('gen', 1, 2, 'dense', 0), ('branch', 0, 2, 'dense', 0), (['gen', 'gen'], 0, 2, 'dense', 0), (['bus', 'gen'], 1, 2, 'dense', 2), (['branch', 'bus'], 0, 1, 'dense', 1), (['gen'], 0, 2, 'dense', 0)]
SP = [(['bus', 'bus', 'gen', 'gen'], 1, 2, 'sparse', 1), (['gen', 'branch'], 0, 2, 'sparse', 0)]
FIELDS = [('gen', 0, 1, 'dense', 0, ('u',)), ('gen', 1, 2, 'dense', 0, ('reserves', 'zones')), (['bus', 'gen'], 1, 2, 'sparse', 1, ('user', 'deep', 'A'))]
CONTRACTS += [FunContract(as_data, None, {'any': data_args(*d)}, post=data_post, name='e2i_data, i2e_data(%s)' % dname(*d)) for d in DATA + SP]
CONTRACTS += [FunContract(as_field, None, {'any': data_args(*d)}, post=data_post, name='e2i_field, i2e_field(%s)' % dname(*d)) for d in FIELDS]

# ---- matrix forms and row selection -------------------------------------------------------------
def both_ways(bus, gen, branch, areas):
    r = ext2int1(bus, gen, branch, areas); inn = [x.copy() for x in r]
    return r, inn, int2ext1(*(r if len(r) == 5 else r + (None,)))
def old_args(areas):
    def f(S):
        ppc = world(S, areas=areas)
        return [ppc['bus'], ppc['gen'], ppc['branch'], ppc.get('areas')]
    return f
def old_post(areas):
    def post(out, args, snap, ghost, it):
        r, inn, back = out; s = W['snap']; cl = Eager(); names = ['bus', 'gen', 'branch'] + (['areas'] if areas else [])
        ab = lambda a: t.ifun('abus', (a,), 'nb')
        cols = {'bus': {0: lambda i: i}, 'gen': {0: gb}, 'branch': {0: fb, 1: tb}, 'areas': {1: ab}}
        cl.append(('number of results', lambda: len(r) == len(names) + 1 and len(back) == len(names)))
        i2e = snapshot(inn[0]); cl.append(('i2e: shape', lambda: i2e.ndim == 1 and i2e.axes[0].same(W['nb']))); cl.append(('i2e', Claim([W['nb']], lambda i: i2e.num(i) - W['num'](i))))
        for k, x, y in zip(names, inn[1:], back):
            X, T = snapshot(x), s[k]
            cl.append(('%s: shape' % k, lambda X=X, T=T: all(p.same(q) for p, q in zip(X.axes, T.axes))))
            for c in range(T.axes[1].n):
                if c in cols[k]: cl.append(('%s column %d consecutive' % (k, c), Claim([T.axes[0]], lambda i, c=c, X=X, k=k: X.num(i, c) - t.mk('idx', cols[k][c](i)))))
                else: cl.append(('%s column %d kept' % (k, c), Claim([T.axes[0]], lambda i, c=c, X=X, T=T: X.num(i, c) - T.num(i, c))))
            equal_tables(y, T, k + ' back', cl)
        cl.append(('arguments are renumbered in place', lambda: all(x is y and x is z for x, y, z in zip(args, r[1:], back))))
        return cl
    return post
CONTRACTS += [FunContract(both_ways, None, {'any': old_args(a)}, post=old_post(a), modifies=(0, 1, 2, 3), name='ext2int1, int2ext1(%s)' % ('areas' if a else 'no areas')) for a in (False, True)]
def index_array(S):
    n, m = S.dim('n', 4, 6), S.dim('m', 1, 3)
    t.FACTS.injective.add('pick'); S.ifs['pick'] = ('n', lambda rng, env, i: (i * 2) % env.sizes['n'] if env.sizes['n'] % 2 else i)
    return n, m, SArray([m], lambda k: t.mk('idx', t.ifun('pick', (k,), 'n')), 'i')
def reorder_args(nd, dim, set_):
    def f(S):
        n, m, idx = index_array(S); p = S.dim('p', 1, 3)
        sh = lambda x: [x] if nd == 1 else [x, p] if dim == 0 else [p, x]
        M = S.array('M', sh(n))
        return [M, S.array('Bnew', sh(m)), idx, dim] if set_ else [M, idx, dim]
    return f
def get_spec(M, idx, dim=0):
    r = lambda k: idx.num(k).a[0]
    ax = list(M.axes); ax[dim] = idx.axes[0]
    return SArray(ax, lambda *ix: M.num(*[r(i) if k == dim else i for k, i in enumerate(ix)]), M.kind)
def set_spec(M, B, idx, dim=0):
    def f(*ix):
        k = t.fresh('m'); e = t.eqi(idx.num(k).a[0], ix[dim])
        hit = t.sumover(k, t.br(e)); put = t.sumover(k, t.mul(t.br(e), B.num(*[k if d == dim else i for d, i in enumerate(ix)])))
        return put + (1 - hit) * M.num(*ix)
    return SArray(list(M.axes), f, 'f')
for nd, dim in ((1, 0), (2, 0), (2, 1)):
    CONTRACTS.append(FunContract(get_reorder, get_spec, {'any': reorder_args(nd, dim, False)}, name='get_reorder(%d-D, %d)' % (nd, dim)))
    CONTRACTS.append(FunContract(set_reorder, set_spec, {'any': reorder_args(nd, dim, True)}, name='set_reorder(%d-D, %d)' % (nd, dim)))

# ---- run-time evaluation ------------------------------------------------------------------------
def dense(x): return np.asarray(x.todense()) if issparse(x) else np.asarray(x)
def rand_case(rng):
    c = G.external_case(rng, isolated=rng.rand() < .8)
    bus, gen, br = c['bus'], c['gen'], c['branch']; nb, ng, nl = len(bus), len(gen), len(br)
    if rng.rand() < .5:     # any bus may be isolated, also one carrying units and branches
        for i in range(nb):
            if rng.rand() < .2: bus[i, BUS_TYPE] = NONE
    if rng.rand() < .3: br[rng.rand(nl) < .3, BR_STATUS] = 0; gen[rng.rand(ng) < .3, GEN_STATUS] = rng.choice([0, -1])
    if (bus[:, BUS_TYPE] == NONE).all(): bus[0, BUS_TYPE] = REF
    if rng.rand() < .6: c['gencost'] = G.gencost_for(rng, ng, q=rng.rand() < .4)
    if rng.rand() < .3: c['areas'] = np.c_[np.arange(1, 4), rng.choice(bus[:, 0], 3)].astype(float)
    n = 2 * (nb + ng); m = rng.randint(1, 4); dc = rng.rand() < .4
    w = nb + ng + rng.randint(0, nb + ng) if dc else n + rng.randint(0, 3)
    for k in ('A', 'N'):
        if rng.rand() < .4:
            M = rng.randn(m, w) * (rng.rand(m, w) < .7); c[k] = csr_matrix(M) if rng.rand() < .7 else M
    return c, dc
def dup(c): return copy.deepcopy(c)
def eqarr(a, b, what, **d):
    a, b = dense(a), dense(b)
    need(a.shape == b.shape and ((a == b) | (np.isnan(a) & np.isnan(b)) if a.dtype.kind == 'f' and b.dtype.kind == 'f' else a == b).all(), what, got=a, expected=b, **d)
def expected(c, dc):
    """what internal form has to be, by loops"""
    bus, gen, br = c['bus'], c['gen'], c['branch']
    iso = {int(b[0]) for b in bus if b[1] == NONE}
    on_b = [i for i, b in enumerate(bus) if b[1] != NONE]
    num = {int(bus[i, 0]): k for k, i in enumerate(on_b)}
    on_l = [l for l, b in enumerate(br) if b[BR_STATUS] > 0 and int(b[0]) not in iso and int(b[1]) not in iso]
    on_g = [g for g, x in enumerate(gen) if x[GEN_STATUS] > 0 and int(x[0]) not in iso]
    on_a = [a for a, x in enumerate(c['areas']) if int(x[1]) not in iso] if 'areas' in c else []
    return on_b, num, on_l, on_g, on_a
def check_internal(c, i, dc):
    on_b, num, on_l, on_g, on_a = expected(c, dc); o = i['order']
    need(o['state'] == 'i', 'state is internal')
    def rows(T, sel, cols):
        R = T[sel].copy()
        for k in cols: R[:, k] = [num[int(x)] for x in R[:, k]]
        return R
    eqarr(i['bus'], rows(c['bus'], on_b, (0,)), 'internal buses'); eqarr(i['branch'], rows(c['branch'], on_l, (0, 1)), 'internal branches')
    g = o['gen']['status']['on'][o['gen']['e2i']] if len(on_g) else np.array([], int)
    need(sorted(g) == on_g, 'exactly the in-service units', got=g, expected=on_g)
    eqarr(i['gen'], rows(c['gen'], g, (0,)), 'internal generators'); need((np.diff(i['gen'][:, 0]) >= 0).all(), 'generators ordered by bus')
    if 'areas' in c: eqarr(i['areas'], rows(c['areas'], on_a, (1,)), 'internal areas')
    ng = len(c['gen']); nb = len(c['bus']); g = [int(x) for x in g]
    if 'gencost' in c:
        w = g + ([ng + x for x in g] if len(c['gencost']) == 2 * ng else [])
        eqarr(i['gencost'], c['gencost'][w], 'cost rows follow their generators')
    for k in ('A', 'N'):
        if k in c:
            cols = on_b + [nb + x for x in g] + list(range(nb + ng, c[k].shape[1])) if dc else on_b + [nb + x for x in on_b] + [2 * nb + x for x in g] + [2 * nb + ng + x for x in g] + list(range(2 * (nb + ng), c[k].shape[1]))
            eqarr(i[k], dense(c[k])[:, cols], 'columns of %s' % k)
    return on_b, num, on_l, g, on_a
def valid(c):
    on_b, num, on_l, on_g, on_a = expected(c, None)
    if not on_g or not on_l: raise Skip()
    return c
def rt_roundtrip(rng, k):
    c, dc = rand_case(rng); valid(c); c0 = dup(c)
    i = ext2int(c)
    for f in c0: eqarr(c[f], c0[f], 'ext2int changed the case passed in') if not isinstance(c0[f], (str, float)) else None
    on_b, num, on_l, g, on_a = check_internal(c0, i, dc)
    need(ext2int(i)['order']['state'] == 'i' and len(ext2int(i)['bus']) == len(i['bus']), 'a case in internal form is left alone')
    e = int2ext(i)
    need(e['order']['state'] == 'e', 'state is external')
    for f in ('bus', 'gen', 'branch', 'gencost', 'areas', 'A', 'N'):
        if f in c0: eqarr(e[f], c0[f], 'round trip of %s' % f)
    # solved values
    j = ext2int(c0); w = dup(j); own = {'bus': (on_b, (0,)), 'branch': (on_l, (0, 1)), 'gen': (g, (0,))}
    for f, (r, skip) in own.items():
        cols = [x for x in range(w[f].shape[1]) if x not in skip and not (f == 'bus' and x == 1)]
        w[f][:, cols] = rng.uniform(-9, 9, (w[f].shape[0], len(cols)))
        if rng.rand() < .5: w[f] = np.c_[w[f], rng.rand(w[f].shape[0], 0)]
    e = int2ext(w)
    for f, (r, skip) in own.items():
        want = c0[f].copy()
        for a, x in enumerate(r):
            for col in range(want.shape[1]):
                if col not in skip: want[x, col] = w[f][a, col]
        eqarr(e[f], want, 'solved values of %s' % f)
    # once more from external form, with another commitment
    if rng.rand() < .5:
        e2 = dup(e); e2['gen'][:, GEN_STATUS] = 1; e2['branch'][:, BR_STATUS] = 1; e2['bus'][:, 1] = np.where(e2['bus'][:, 1] == NONE, PQ, e2['bus'][:, 1])
        if expected(e2, dc)[2] and expected(e2, dc)[3]:
            k2 = ext2int(e2); check_internal({f: e2[f] for f in c0}, k2, dc); e3 = int2ext(k2)
            for f in ('bus', 'gen', 'branch', 'gencost', 'areas', 'A', 'N'):
                if f in c0: eqarr(e3[f], e2[f], 'second round trip of %s' % f)
    return len(c0['bus'])
def rt_data(rng, k):
    c, dc = rand_case(rng); valid(c); i = ext2int(c); on_b, num, on_l, g, on_a = check_internal(c, i, dc)
    size = {'bus': len(c['bus']), 'gen': len(c['gen']), 'branch': len(c['branch'])}; sel = {'bus': on_b, 'gen': g, 'branch': on_l}
    for _ in range(4):
        multi = rng.rand() < .6
        ordn = [str(x) for x in rng.choice(['bus', 'gen', 'branch'], rng.randint(1, 4))] if multi else str(rng.choice(['bus', 'gen', 'branch']))
        sets = ordn if multi else [ordn]; extra = rng.randint(0, 3) if multi else 0
        n = sum(size[s] for s in sets) + extra; nd = rng.choice([1, 2, 2]); dim = 0 if nd == 1 else rng.randint(2); kind = rng.choice(['f', 'i', 's']) if nd == 2 else rng.choice(['f', 'i'])
        shape = (n,) if nd == 1 else (n, 3) if dim == 0 else (3, n)
        v = rng.randn(*shape) if kind != 'i' else rng.randint(0, 99, shape)
        if kind == 's': v = csr_matrix(v)
        idx = []; b = 0
        for s in sets: idx += [b + x for x in sel[s]]; b += size[s]
        idx += list(range(b, n)); v0 = copy.deepcopy(v)
        want = np.take(dense(v0), idx, dim)
        # as a value
        a = e2i_data(i, v, ordn, dim); eqarr(v, v0, 'e2i_data changed its argument'); eqarr(a, want, 'e2i_data', ordering=ordn, dim=dim)
        need(issparse(a) == issparse(v), 'e2i_data keeps the storage')
        back = i2e_data(i, a, v, ordn, dim); eqarr(back, v0, 'data reordered one way and back', ordering=ordn, dim=dim); eqarr(v, v0, 'i2e_data changed its argument')
        if kind != 's':      # new values, of any type
            new = rng.randint(0, 9, want.shape) if rng.rand() < .5 else rng.randn(*want.shape)
            full = v0.astype(np.result_type(v0.dtype, new.dtype))
            if dim == 0: full[idx] = new
            else: full[:, idx] = new
            eqarr(i2e_data(i, new, v, ordn, dim), full, 'i2e_data puts new values in place and keeps the rest', ordering=ordn, dim=dim)
        # as a field, nested or not
        path = [['u'], ['r', 'cost'], ['r', 'zones'], ['r', 'deep', 'x'], ['r', 'deep', 'y']][rng.randint(5)]
        fld = path[0] if len(path) == 1 and rng.rand() < .7 else path
        p = dup(i); q = p
        for x in path[:-1]: q = q.setdefault(x, {})
        q[path[-1]] = v0.copy()
        if len(path) == 2 and rng.rand() < .5:       # another field of the same structure first
            p['r'][['cost', 'zones'][path[1] == 'cost']] = rng.randn(size['gen']); p = e2i_field(p, ['r', ['cost', 'zones'][path[1] == 'cost']], 'gen')
        if len(path) == 3 and rng.rand() < .5:
            p['r']['deep'][['x', 'y'][path[2] == 'x']] = rng.randn(size['bus']); p = e2i_field(p, ['r', 'deep', ['x', 'y'][path[2] == 'x']], 'bus')
        top = set(p['order']['ext'])
        p = e2i_field(p, fld, ordn, dim); q = p
        need(set(p['order']['ext']) <= top | {path[0]}, 'only the field itself is stored', got=set(p['order']['ext']))
        for x in path: q = q[x]
        eqarr(q, want, 'e2i_field', field=path, ordering=ordn, dim=dim)
        p = i2e_field(p, fld, ordn, dim); q = p
        for x in path: q = q[x]
        eqarr(q, v0, 'field reordered one way and back', field=path, ordering=ordn, dim=dim)
    return 4
def rt_old(rng, k):
    """the matrix forms: consecutive numbers and back"""
    c, dc = rand_case(rng); ar = c.get('areas'); a = [c['bus'].copy(), c['gen'].copy(), c['branch'].copy()] + ([ar.copy()] if ar is not None else [])
    num = {int(b[0]): i for i, b in enumerate(c['bus'])}
    r = ext2int1(*a); i2e, b2, g2, l2 = r[:4]
    need(len(r) == len(a) + 1, 'number of results')
    for T, T0, cols in ((b2, c['bus'], (0,)), (g2, c['gen'], (0,)), (l2, c['branch'], (0, 1))) + (((r[4], ar, (1,)),) if ar is not None else ()):
        w = T0.copy()
        for k_ in cols: w[:, k_] = [num[int(x)] for x in T0[:, k_]]
        eqarr(T, w, 'consecutive numbers')
    s = int2ext1(i2e, *([x.copy() for x in r[1:]] + [None] * (5 - len(r))))
    for x, y in zip(s, [c['bus'], c['gen'], c['branch']] + ([ar] if ar is not None else [])): eqarr(x, y, 'original numbers')
    return 1
def rt_reorder(rng, k):
    nd = rng.randint(1, 3); shape = tuple(rng.randint(1, 6, nd)); dim = rng.randint(nd)
    M = rng.randn(*shape) if rng.rand() < .5 else rng.randint(0, 9, shape); idx = rng.permutation(shape[dim])[:rng.randint(1, shape[dim] + 1)]; M0 = M.copy()
    B = get_reorder(M, idx, dim); eqarr(B, np.take(M0, idx, dim), 'get_reorder'); B[...] = 77; eqarr(M, M0, 'get_reorder gives a copy')
    new = rng.randn(*B.shape) if rng.rand() < .5 else rng.randint(0, 9, B.shape); w = M0.astype(np.result_type(M0.dtype, new.dtype))
    w[(slice(None),) * dim + (idx,)] = new
    eqarr(set_reorder(M, new, idx, dim), w, 'set_reorder'); eqarr(M, M0, 'set_reorder gives a copy')
    return 1
RUNTIME = [RT('round trips', rt_roundtrip, 150, 3000, ['ext2int', 'int2ext', 'e2i_field', 'e2i_data', 'get_reorder'], 'networks up to 9 buses'), RT('user data', rt_data, 120, 2500, ['e2i_data', 'i2e_data', 'e2i_field', 'i2e_field'], 'up to 3 sets'),
           RT('matrix forms', rt_old, 80, 1000, ['ext2int1', 'int2ext1'], ''), RT('reordering', rt_reorder, 100, 1000, ['get_reorder', 'set_reorder'], '')]
ASSUMPTIONS = ['bus numbers are distinct nonnegative integers, generators, branches and areas name existing buses, statuses of branches are 0 or 1, bus types are 1 .. 4, something is in service',
 'bus numbers are modelled as an injective index function onto 0 .. largest number; the table from numbers to internal buses is taken to be that long (it is only as long as the largest number in service; only such numbers are looked up)',
 'numpy.argsort returns some permutation that sorts its argument; the order of generators at one bus is arbitrary but the same everywhere',
 'user callbacks (userfcn) are absent from the proved cases']
EXPLANATION = 'ext2int gives exactly the rows in service, renumbered, generators ordered by bus, cost rows and columns of A and N following; int2ext restores every table and puts solved values in place; e2i/i2e data and fields, the matrix forms and row selection the same'
LEVEL = 'proof'
