"""C14: loadcase from a dictionary under contract (any number of rows); saving and loading back evaluated at run time."""
from pv.verify import FunContract, Claim, snapshot
from pv.runner import RT, Skip
from pv import terms as t, arrays as A
from pv.arrays import SArray, dimaxis, fixaxis
from . import gen as G
from .gen import need
import numpy as np, os, tempfile, shutil, itertools
from pypower.loadcase import loadcase

NAMES = ('bus', 'gen', 'branch', 'areas', 'gencost')
# documented column moves from the version 1 tables (number of columns given) to the version 2 ones: source column, or the default
def gen1to2(n):
    d = {j: j for j in range(10)}; d.update({j: ('c', 0) for j in range(10, 21)})
    if n >= 14: d.update({21 + k: 10 + k for k in range(4)})
    return d
def br1to2(n):
    d = {j: j for j in range(11)}; d.update({11: ('c', -360), 12: ('c', 360)})
    if n >= 15: d.update({13 + k: 11 + k for k in range(4)})
    if n >= 17: d.update({17: 15, 18: 16, 19: ('c', 0), 20: ('c', 0)})
    return d
def table(S, name, rows, cols, kind='f'):
    a = S.table('case.' + name, S.dim(rows, 1, 4), cols, {})
    a.kind = kind
    return a
def case(cols, extra=(), ints=()):
    def mk(S):
        c = {'version': '2', 'baseMVA': S.scalar('baseMVA', 'p')}
        for n in NAMES:
            if n in cols: c[n] = table(S, n, {'bus': 'nb', 'gen': 'ng', 'branch': 'nl', 'areas': 'na', 'gencost': 'nc'}[n], cols[n], 'i' if n in ints else 'f')
        for n in extra: c[n] = {'A': lambda: table(S, 'A', 'nA', 3), 'l': lambda: S.array('case.l', [S.dim('nA', 1, 4)]), 'reserves': lambda: {'zones': table(S, 'zones', 'nz', 4), 'req': S.array('case.req', [S.dim('nz', 1, 4)])}, 'note': lambda: 'text'}[n]()
        return c
    return mk
def args(mk, form):
    def f(S):
        c = mk(S)
        if form == 'obj': return [c], {}
        return [c, False, form.endswith('cost') or form == 'all', form == 'all'], {}
    return f
def same(name, x, y, cols=None):
    """claims: x is a table of its own whose column j is column cols[j] of y"""
    if not isinstance(x, SArray): return [(name + ' is a table', lambda: False)]
    if x.ndim != y.ndim: return [(name + ' keeps its shape', lambda: False)]
    if x.ndim == 1: return [(name + ' shape', lambda: A.match_axes(x.axes[0], y.axes[0]) is None), (name + ' values', Claim([y.axes[0]], lambda i: x.num(i) - y.num(i)))]
    if x.axes[1].kind != 'fix' or x.axes[1].n != (len(cols) if cols else y.axes[1].n) or A.match_axes(x.axes[0], y.axes[0]) is not None: return [(name + ' has the expected columns and rows', lambda: False)]
    cl = []
    for j in range(x.axes[1].n):
        s = cols[j] if cols else j
        cl.append(('%s column %d' % (name, j), Claim([y.axes[0]], lambda i, j=j, s=s: x.num(i, j) - (t.q(s[1]) if isinstance(s, tuple) else y.num(i, s)))))
    return cl
def deep(name, x, y, src):
    """x equals y (the data as supplied) and is not the caller's object"""
    if isinstance(y, SArray): return [(name + ' is not the caller\'s array', lambda: x is not src)] + same(name, x, y)
    if isinstance(y, dict):
        if not isinstance(x, dict): return [(name + ' is a dict', lambda: False)]
        cl = [(name + ' is not the caller\'s dict', lambda: x is not src), (name + ' has the same entries', lambda: set(x) == set(y))]
        for k in y:
            if k in x: cl += deep('%s.%s' % (name, k), x[k], y[k], src[k] if src is not None else None)
        return cl
    return [(name, lambda: x is y or (type(x) == type(y) and x == y))]
def post(form):
    def f(out, args_, snap, ghost, it):
        c, c0 = args_[0], snap[0]
        ng, nl = c0['gen'].axes[1].n, c0['branch'].axes[1].n
        v1 = ng < 21
        want = {k: v for k, v in c0.items() if k != 'version'}
        if form == 'obj':
            if not isinstance(out, dict): return [('returns a case', lambda: False)]
            got = out
            cl = [('exactly the supplied entries', lambda: set(out) == set(c0) | {'version'}), ('version 2', lambda: out.get('version') == '2'), ('a case of its own', lambda: out is not c)]
        else:
            names = ['baseMVA', 'bus', 'gen', 'branch'] + (['areas'] if form == 'all' else []) + (['gencost'] if form in ('cost', 'all') else [])
            if not isinstance(out, (list, tuple)) or len(out) != len(names): return [('returns the requested tables', lambda: False)]
            got = dict(zip(names, out)); want = {k: want[k] for k in names}; cl = []
        for k, v in want.items():
            if k not in got: continue
            if v1 and k in ('gen', 'branch'):
                cl += [(k + ' is not the caller\'s array', lambda k=k: got[k] is not c[k])] + same(k, got[k], v, gen1to2(ng) if k == 'gen' else br1to2(nl))
            else: cl += deep(k, got[k], v, c[k])
        # and the caller's case is untouched
        cl.append(('caller keeps the same entries', lambda: set(c) == set(c0)))
        for k in c0:
            if k in c: cl += [('caller ' + n, q) for n, q in deep(k, c[k], c0[k], None)]
        return cl
    return f
CONTRACTS = []
V2 = [(13, 21, 13), (17, 25, 21), (13, 21, 17), (17, 25, 17), (13, 25, 13)]
V1 = [(13, 10, 11), (13, 10, 15), (17, 14, 17), (13, 14, 11), (13, 14, 15)]
for (b, g, l) in V2 + V1:
    for form in ('obj', 'tables', 'cost', 'all'):
        cols = {'bus': b, 'gen': g, 'branch': l, 'areas': 2, 'gencost': 7}
        CONTRACTS.append(FunContract(loadcase, None, {'dict with %d/%d/%d columns, returned as %s' % (b, g, l, form): args(case(cols), form)}, post=post(form), name='loadcase[%d/%d/%d %s]' % (b, g, l, form)))
for nm, cols, extra, ints in (('no costs', {'bus': 13, 'gen': 21, 'branch': 13}, (), ()), ('areas only', {'bus': 13, 'gen': 21, 'branch': 13, 'areas': 2}, (), ()),
                              ('integer tables', {'bus': 13, 'gen': 21, 'branch': 13, 'areas': 2, 'gencost': 6}, (), NAMES), ('integer version 1', {'bus': 13, 'gen': 10, 'branch': 11, 'gencost': 6}, (), NAMES),
                              ('user entries', {'bus': 13, 'gen': 21, 'branch': 13, 'gencost': 7}, ('A', 'l', 'reserves', 'note'), ())):
    CONTRACTS.append(FunContract(loadcase, None, {nm: args(case(cols, extra, ints), 'obj')}, post=post('obj'), name='loadcase[%s]' % nm))

# ---- run-time evaluation ----------------------------------------------------------------
INT = {'bus': (0, 1, 6, 10), 'gen': (0, 7), 'branch': (0, 1, 10), 'areas': (0, 1), 'gencost': (0, 3)}
PRINTED = {'bus': range(13, 17), 'gen': range(21, 25), 'branch': range(13, 21)}       # results, four decimals; data have nine significant digits
def random_case(rng):
    c = G.internal_case(rng, offs=True) if rng.rand() < .5 else G.pf_case(rng) if hasattr(G, 'pf_case') else G.internal_case(rng, offs=True)
    ng = c['gen'].shape[0]
    c = {k: np.array(c[k], float) if k != 'baseMVA' else float(rng.choice([1, 10, 100, 37.123456789])) for k in ('baseMVA', 'bus', 'gen', 'branch')}
    c['bus'] = c['bus'][:, :13]; c['gen'] = c['gen'][:, :21]; c['branch'] = c['branch'][:, :13]
    val = lambda shape: rng.randn(*shape) * 10. ** rng.randint(-6, 7, shape)
    for n, cols in (('bus', 13), ('gen', 21), ('branch', 13)):
        m = rng.rand(*c[n].shape) < .4; m[:, [j for j in INT[n] if j < cols]] = False
        c[n][m] = val(c[n].shape)[m]
        lim = {'bus': (11, 12), 'gen': (3, 4, 8, 9, 11, 12), 'branch': (5, 6, 7, 11, 12)}[n]
        for j in lim:
            for i in range(c[n].shape[0]):
                if rng.rand() < .15: c[n][i, j] = rng.choice([np.inf, -np.inf])
        if n == 'bus': c[n][:, 0] = rng.permutation(rng.randint(1, 99999) + np.arange(c[n].shape[0]) * rng.randint(1, 7))
    k = rng.randint(4)
    if k & 1: c['bus'] = np.c_[c['bus'], val((c['bus'].shape[0], 4))]; c['gen'] = np.c_[c['gen'], val((ng, 4))]
    if k: c['branch'] = np.c_[c['branch'], val((c['branch'].shape[0], 8 if k & 1 else 4))]
    if rng.rand() < .8: c['gencost'] = G.gencost_for(rng, ng, [('poly',), ('pwl',), ('poly', 'pwl')][rng.randint(3)], q=rng.rand() < .3)
    if rng.rand() < .3: c['areas'] = np.array([[i + 1., rng.randint(1, 99)] for i in range(rng.randint(1, 4))])
    if 'gencost' in c and rng.rand() < .4: c['gencost'] = np.c_[c['gencost'], np.zeros((c['gencost'].shape[0], rng.randint(1, 4)))]
    return c
def close(name, got, want, exact=False):
    got = np.asarray(got, float); want = np.asarray(want, float)
    if name == 'gencost':
        w = max(got.shape[1], want.shape[1]) if got.ndim == 2 else 0
        pad = lambda x: np.c_[x, np.zeros((x.shape[0], w - x.shape[1]))]
        need(got.ndim == 2 and got.shape[0] == want.shape[0], 'cost rows', got=str(got.shape), expected=str(want.shape)); got, want = pad(got), pad(want)
    need(got.shape == want.shape, 'shape of ' + name, got=str(got.shape), expected=str(want.shape))
    fin = np.isfinite(want)
    need(np.array_equal(got[~fin], want[~fin], equal_nan=True), 'infinite entries of ' + name)
    tol = np.zeros(want.shape) if exact else np.abs(np.where(fin, want, 0)) * 1e-8
    if not exact and name in PRINTED:
        for j in PRINTED[name]:
            if j < want.shape[1]: tol[:, j] = 5.1e-5 + np.abs(np.where(fin[:, j], want[:, j], 0)) * 1e-12
    bad = np.abs(np.where(fin, got, 0) - np.where(fin, want, 0)) > tol
    need(not bad.any(), 'values of ' + name, at=str(np.argwhere(bad)[:3].tolist()), got=got[bad][:3], expected=want[bad][:3])
def scratch():
    return tempfile.mkdtemp(prefix='pv14_')
def rt_save(rng, k):
    from pypower.savecase import savecase
    c = random_case(rng); c0 = {n: (v.copy() if isinstance(v, np.ndarray) else v) for n, v in c.items()}
    c['version'] = '2'
    d = scratch()
    try:
        for ext in ('.py', '.mat', ''):
            name = os.path.join(d, 'case_%s%d%s' % ('x' if ext else 'y', k, ext))
            f = savecase(name, c, *([['first', 'second'], 'one line', None][rng.randint(3)],) if rng.rand() < .5 else ())
            need(os.path.exists(f) and f == (name if ext else name + '.py'), 'file name', got=f)
            for n, v in c0.items(): need(np.array_equal(c[n], v, equal_nan=True) if isinstance(v, np.ndarray) else c[n] == v, 'saving changes the case: ' + n)
            for load in ([f] if ext != '.py' else [f, f[:-3]]):
                r = loadcase(load)
                need(isinstance(r, dict), 'the saved file loads', got=str(r))
                need(np.ndim(r['baseMVA']) == 0 and abs(r['baseMVA'] - c0['baseMVA']) <= 1e-8 * c0['baseMVA'], 'baseMVA', got=str(r['baseMVA']), expected=c0['baseMVA'])
                need(str(np.asarray(r['version']).ravel()[0]) == '2', 'version')
                for n in ('bus', 'gen', 'branch', 'areas', 'gencost'):
                    need((n in r) == (n in c0), n + ' is there exactly when it was saved')
                    if n in c0: close(n, r[n], c0[n], exact=ext == '.mat')
            if ext == '.mat': os.rename(name, name + '.bak')
    finally: shutil.rmtree(d, ignore_errors=True)
    return 1
def rt_solved(rng, k):
    """results of a solved case, saved and loaded back"""
    from pypower.savecase import savecase
    from pypower.runpf import runpf
    from pypower.runopf import runopf
    from pypower.ppoption import ppoption
    from pypower.case9 import case9
    from pypower.case6ww import case6ww
    c = [case9, case6ww][k % 2]()
    for n in ('bus', 'gen', 'branch', 'gencost'): c[n] = np.array(c[n], float)
    c['bus'][:, 2:4] *= rng.uniform(.8, 1.1)
    c['gen'][rng.randint(len(c['gen'])), 3] = np.inf
    o = ppoption(VERBOSE=0, OUT_ALL=0); d = scratch()
    try:
        fname = os.path.join(d, 'solved%d%s' % (k, ['.py', '.mat'][(k // 2) % 2]))
        r = runopf(c, o, '', fname) if k % 3 == 0 else runpf(c, o, '', fname)[0]
        if not r['success']: raise Skip()
        b = loadcase(fname); need(isinstance(b, dict), 'the saved results load', got=str(b))
        for n in ('bus', 'gen', 'branch', 'gencost'): close(n, b[n], r[n], exact=fname.endswith('mat'))
    finally: shutil.rmtree(d, ignore_errors=True)
    return 1
def shares(a, b):
    for x in (a.values() if isinstance(a, dict) else a if isinstance(a, (list, tuple)) else [a]):
        if isinstance(x, (dict, list, tuple)):
            if shares(x, b): return True
        elif isinstance(x, np.ndarray):
            for y in (b.values() if isinstance(b, dict) else b if isinstance(b, (list, tuple)) else [b]):
                if isinstance(y, (dict, list, tuple)):
                    if shares(x, y): return True
                elif isinstance(y, np.ndarray) and np.shares_memory(x, y): return True
    return False
def rt_alias(rng, k):
    import copy
    c = random_case(rng); c['version'] = '2'
    v1 = rng.rand() < .4
    if v1:
        s = rng.randint(3)
        g, l = c['gen'], c['branch']
        c['gen'] = np.c_[g[:, :10], g[:, 21:25]] if g.shape[1] == 25 and rng.rand() < .7 else g[:, :10].copy()
        c['branch'] = np.c_[l[:, :11], l[:, 13:17]] if l.shape[1] >= 17 and s == 1 else np.c_[l[:, :11], l[:, 13:19]] if l.shape[1] == 21 and s else l[:, :11].copy()
        c['version'] = '1'
    if rng.rand() < .3: c['userfcn'] = {}; c['reserves'] = {'zones': rng.rand(2, 3), 'list': [rng.rand(3), 'x']}
    if rng.rand() < .3 and not v1:
        n = ['bus', 'gen', 'branch', 'gencost'][rng.randint(4)]
        if n in c: c[n] = np.where(np.isfinite(c[n]), c[n], 9).clip(-1e9, 1e9).astype([int, np.int32, np.float32][rng.randint(3)])
    if rng.rand() < .2: c['bus'] = np.asfortranarray(c['bus'])
    c0 = copy.deepcopy(c)
    r = loadcase(c)
    need(r is not c and not shares(r, c), 'the result shares storage with the caller')
    need(set(r) == set(c0), 'entries', got=sorted(r))
    for n, v in c0.items():
        w = v
        if v1 and n in ('gen', 'branch'):
            m = gen1to2(v.shape[1]) if n == 'gen' else br1to2(v.shape[1])
            w = np.array([v[:, m[j]] if not isinstance(m[j], tuple) else np.full(len(v), m[j][1]) for j in range(len(m))]).T
        if n == 'version': continue
        same_ = lambda x, y: np.array_equal(x, y, equal_nan=True) if isinstance(y, np.ndarray) else x.keys() == y.keys() and all(same_(x[q], y[q]) for q in y) if isinstance(y, dict) else all(map(same_, x, y)) if isinstance(y, list) else x == y
        need(same_(r[n], w), 'value of ' + n)
        need(same_(c[n], v), 'the caller\'s %s was changed' % n)
    for n in ('bus', 'gen', 'branch'): need(r[n].dtype.kind == 'f', n + ' can hold fractions')
    out = loadcase(c, False, 'gencost' in c, 'gencost' in c and 'areas' in c)
    names = ['baseMVA', 'bus', 'gen', 'branch'] + (['areas'] if 'gencost' in c and 'areas' in c else []) + (['gencost'] if 'gencost' in c else [])
    need(len(out) == len(names), 'number of tables'); need(not shares(list(out), c), 'the tables share storage with the caller')
    for n, x in zip(names, out): need(np.array_equal(x, r[n], equal_nan=True), 'table ' + n)
    return 1
RUNTIME = [RT('loading a dictionary', rt_alias, 150, 3000, ['loadcase'], 'networks up to 9 buses, versions 1 and 2'), RT('save and load', rt_save, 100, 1500, ['savecase', 'loadcase'], 'networks up to 9 buses, Python and MAT files'),
           RT('solved cases', rt_solved, 8, 60, ['savecase', 'loadcase'], 'case9 and case6ww')]
ASSUMPTIONS = ['copy.deepcopy gives an equal, unshared copy of arrays, dicts, lists and scalars', 'the case passed in is a dict with baseMVA, bus, gen, branch (and the tables asked for)']
TRUSTED = ['scipy.io.savemat / loadmat, the Python compiler and %-formatting of numbers (used, not verified)']
LEVEL = 'other'
EXPLANATION = 'loadcase of a dictionary is proved for any number of rows: own storage, every value unchanged, version 1 columns moved with the documented defaults. savecase and loading from files go through the file system and text formatting, outside the verifier: they are evaluated at run time only (bounded).'
