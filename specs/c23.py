"""C23: user callbacks run as registered; the reserve extension's variables, constraints and costs are those declared."""
from pv.verify import FunContract, Claim, snapshot
from pv.runner import RT, Skip
from pv import terms as t, arrays as A
from pv.arrays import SArray, Size, dimaxis, fixaxis, cataxis
from pv.loops import LoopContract
from pv.interp import SymList
from .net import *
from .drv import stub, log, calls
from .c28 import same
from . import c13
from . import gen as G
from .gen import need, needclose
import numpy as np, copy, io, contextlib
from pypower.run_userfcn import run_userfcn
from pypower.add_userfcn import add_userfcn
from pypower.remove_userfcn import remove_userfcn
from pypower import toggle_reserves as TR_
from pypower.opf_model import opf_model
from pypower.ppoption import ppoption
from pypower.idx_gen import *
import sys
TR = sys.modules['pypower.toggle_reserves']

# ---- run_userfcn: any number of callbacks ---------------------------------------------------
STAGES = ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']
class Tok(object):
    """an opaque value"""
    def __init__(self, n, k=None): self.n = n; self.k = k
    def __len__(self): return 1
    def __repr__(self): return self.n
CUR, INIT = Tok('value so far'), Tok('the value passed in')
FD, OPT = Tok('fd'), Tok('options')
class Callback(object):
    def __init__(self, k): self.k = k
    def pv_call(self, interp, args, kw):
        r = Tok('result of a callback', self.k); interp.ghost.append(('callback', self.k, args, kw, r, self.args)); return r
def entries():
    memo = {}
    def item(k):
        if k not in memo:
            f = Callback(k); memo[k] = {'fcn': f}; f.args = None
            if A.decide_hook(t.pred('hasargs', (k,))): memo[k]['args'] = f.args = Tok('args', k)
        return memo[k]
    return item
def fold_loop():
    st = {}
    def check(interp, fr):
        recs = [g for g in interp.ghost if isinstance(g, tuple) and g[0] == 'callback']
        k = interp.loop_at
        if k is None:        # entry: the accumulated value is the one passed in
            return [('no callback before the first', lambda: not recs)]
        out = [('one call per callback', lambda: len(recs) == 1)]
        if len(recs) == 1:
            _, at, args, kw, r, own = recs[0]; stage = GW['stage']
            v = INIT if st.get('entry') else CUR
            out += [('the callback of this position', lambda: at is k), ('it gets the value so far', lambda: len(args) >= 1 and args[0] is v),
                    ('the result is handed on', lambda: all(fr.loc.get(n) is r for n in st['names']) and bool(st['names'])), ('no keywords', lambda: not kw)]
            want = [FD, OPT] if stage in ('printpf', 'savecase') else []
            out.append(('stage arguments', lambda: len(args) == 2 + len(want) and all(a is b for a, b in zip(args[1:-1], want))))
            out.append(('its own arguments', lambda: args[-1] is own if own is not None else isinstance(args[-1], (list, tuple)) and not args[-1]))
        return out
    def start(interp, fr, entry):
        st['names'] = [n for n in interp.loop_names if fr.loc.get(n) is INIT]; st['entry'] = entry
    def havoc(interp, fr):
        interp.ghost.append('havoc')
        for n in st['names']: fr.loc[n] = CUR
    lc = LoopContract(havoc, check); lc.start = start
    return lc
GW = {}
def run_args(stage, have):
    def f(S):
        GW['stage'] = stage; n = S.dim('nf', 0, 4); other = S.dim('nother', 0, 3)
        u = {'printpf' if stage != 'printpf' else 'ext2int': SymList(other, entries())}
        if have: u[stage] = SymList(n, entries())
        if have is None: u = {}
        rest = [FD, OPT] if stage in ('printpf', 'savecase') else []
        return [u, stage, INIT] + rest
    return f
def run_post(out, args, snap, ghost, it):
    moved = any(g == 'havoc' for g in ghost)
    return [('the last value is returned', lambda: out is (CUR if moved else INIT)), ('nothing is called after the loop', lambda: not [g for g in ghost if isinstance(g, tuple) and g[0] == 'callback'])]
def run_case(stage, have): return FunContract(run_userfcn, None, {'any': run_args(stage, have)}, post=run_post, loops={('pypower.run_userfcn', 'run_userfcn'): {('for', 0): fold_loop()}}, name='run_userfcn(%s%s)' % (stage, '' if have else ', none registered' if have is False else ', no stages'))
CONTRACTS = [run_case(s, h) for s in STAGES for h in (True, False, None)]
LEMMAS = []

# ---- the reserve extension's formulation ------------------------------------------------------
def z_any(zones, nz, g): return A.any_over(nz, lambda z: t.mknot(t.eq0(zones.num(z, g))))
def form_args(qty):
    def f(S):
        ng, nz = S.dim('ng', 1, 4), S.dim('nz', 1, 3); S.pre.extend(nonempty(ng, nz)); base = S.scalar('baseMVA', 'p')
        S.ifs_ok = None
        el = S.array('rgens', [ng]); ax = dimaxis('ng', lambda g: t.mknot(t.eq0(el.num(g))))
        gen = gen_table(S, ng, cols={7: ('const', 1)})
        r = {'zones': S.array('zones', [nz, ng]), 'req': S.array('req', [nz]), 'cost': S.array('cost', [ng]), 'rgens': el, 'igr': SArray([ax], lambda i: t.mk('idx', i), 'i')}
        if qty: r['qty'] = S.array('qty', [ng])
        om = opf_model({'version': '2', 'baseMVA': base, 'gen': gen, 'reserves': r}); GW.update(ng=ng, nz=nz, ax=ax, base=base, gen=gen, r=r, qty=qty, om=om)
        om.var['idx']['i1']['Pg'] = 0; om.var['idx']['iN']['Pg'] = Size([ng]); om.var['idx']['N']['Pg'] = Size([ng]); om.var['order'].append('Pg'); om.var['N'] = Size([ng]); om.var['NS'] = 1
        return [om]
    return f
def nolimit(x, sign, ax):
    """claims: no bound on that side"""
    if x is None or isinstance(x, (list, tuple)) and not len(x) or isinstance(x, np.ndarray) and x.size == 0: return []
    return [('absent side has its length', lambda: isinstance(x, SArray) and A.match_axes(x.axes[0], ax) is None), ('no bound there', Claim([ax], lambda i: t.br(t.cmp_eq(x.entry(i), t.INF if sign > 0 else -t.INF)) - 1))]
def form_post(out, args, snap, ghost, it):
    ng, nz, ax, base, gen, r, om = [GW[k] for k in ('ng', 'nz', 'ax', 'base', 'gen', 'r', 'om')]; cl = []
    if out is not om or 'R' not in om.var['order'] or not {'Pg_plus_R', 'Rreq'} <= set(om.lin['order']) or 'Rcost' not in om.cost['order']: return [('the model with the reserve variables, constraints and costs', lambda: False)]
    cl += [('nothing else added', lambda: list(om.var['order']) == ['Pg', 'R'] and set(om.lin['order']) == {'Pg_plus_R', 'Rreq'} and list(om.cost['order']) == ['Rcost'] and not om.nln['order'])]
    d = om.var['data']; lo, hi = [snapshot(d[k]['R']) for k in ('vl', 'vu')]
    cl.append(('one reserve variable per eligible generator', lambda: A.match_axes(hi.axes[0], ax) is None and A.match_axes(lo.axes[0], ax) is None))
    ramp = lambda g: t.ite(t.eq0(gen.num(g, RAMP_10)), t.INF, gen.num(g, RAMP_10))
    def top(g):
        if not GW['qty']: return t.ite(t.eq0(gen.num(g, RAMP_10)), t.INF, gen.num(g, RAMP_10) / base)
        q = r['qty'].num(g); x = gen.num(g, RAMP_10)
        return t.ite(t.eq0(x), q, t.ite(q < x, q, x)) / base
    cl += [('reserve is at least zero', Claim([ax], lambda g: lo.num(g)))]
    if GW['qty']: cl.append(('reserve within ramp and stated quantity', Claim([ax], lambda g: t.lift(hi.entry(g)) - top(g))))
    else: cl += [('reserve within the ramp', Claim([ax], lambda g: hi.num(g) * base - gen.num(g, RAMP_10), given=lambda g: [t.mknot(t.eq0(gen.num(g, RAMP_10)))])), ('no ramp limit when there is none', Claim([ax], lambda g: t.lift(hi.entry(g)) - t.INF / base, given=lambda g: [t.eq0(gen.num(g, RAMP_10))]))]
    def con(n, rows, names, M, l, u, widths):
        c = om.lin['data']; Am, vs = snapshot(c['A'][n]), c['vs'][n]
        got = [v['name'] if isinstance(v, dict) else v for v in vs]
        cl.append((n + ': its variables', lambda: sorted(got) == sorted(names)))
        if sorted(got) != sorted(names): return
        wd = [widths[names.index(g)] for g in got]
        want = cataxis(wd) if len(wd) > 1 else wd[0]
        cl.append((n + ': shape', lambda: A.match_axes(Am.axes[0], rows) is None and A.match_axes(Am.axes[1], want) is None))
        for b, (g, x) in enumerate(zip(got, wd)): cl.append(('%s: coefficients of %s' % (n, g), Claim([rows, x], lambda i, j, b=b, g=g: Am.num(i, (b, j) if len(wd) > 1 else j) - M[g](i, j))))
        for k, x, sg in (('l', l, -1), ('u', u, 1)):
            y = c[k][n]; y = snapshot(y) if isinstance(y, SArray) else y
            if x is None: cl.extend(nolimit(y, sg, rows))
            else: cl.append(('%s: %s is per row' % (n, k), lambda y=y: isinstance(y, SArray) and A.match_axes(y.axes[0], rows) is None)); cl.append(('%s: %s' % (n, k), Claim([rows], lambda i, y=y, x=x: y.num(i) - x(i))))
    one = lambda i, j: t.br(A.ixeq(i, j))
    con('Pg_plus_R', ax, ['Pg', 'R'], {'Pg': one, 'R': one}, None, lambda g: gen.num(g, PMAX) / base, [ng, ax])
    con('Rreq', nz, ['R'], {'R': lambda z, g: r['zones'].num(z, g)}, lambda z: r['req'].num(z) / base, None, [ax])
    c = om.cost['data']; N, Cw = snapshot(c['N']['Rcost']), snapshot(c['Cw']['Rcost'])
    cl += [('cost: of the reserve variables', lambda: [v['name'] if isinstance(v, dict) else v for v in c['vs']['Rcost']] == ['R']), ('cost: shape', lambda: A.match_axes(N.axes[0], ax) is None and A.match_axes(N.axes[1], ax) is None and A.match_axes(Cw.axes[0], ax) is None),
           ('cost: one row per variable', Claim([ax, ax], lambda i, j: N.num(i, j) - one(i, j))), ('cost: declared price', Claim([ax], lambda g: Cw.num(g) - r['cost'].num(g) * base)),
           ('cost: plainly linear', lambda: not any(n in c.get(k, {}) and c[k][n] is not None for k in ('H', 'dd', 'rh', 'kk', 'mm') for n in ['Rcost']))]
    return cl
CONTRACTS += [FunContract(TR.userfcn_reserves_formulation, None, {'any': form_args(q)}, post=form_post, modifies=(0,), name='userfcn_reserves_formulation(%s)' % ('quantity limits' if q else 'ramp limits only')) for q in (True, False)]


# ---- its data, in the order of the generators in service -----------------------------------------
from pypower.ext2int import ext2int
def reserves_inside(ppc): return TR.userfcn_reserves_ext2int(ext2int(ppc))
reserves_inside.__pv_interpret__ = True
def ext_args(many, short, qty):
    def f(S):
        ppc = c13.world(S); ng = c13.W['ng']
        nz = S.dim('nz', 2, 3) if many else fixaxis(1)
        if many: S.pre.append(t.ascond(Size([nz]) > 1))
        zones = S.array('zones', [nz, ng]); el = (lambda g: z_any(zones, nz, g)) if many else lambda g: t.mknot(t.eq0(zones.num(0, g)))
        eax = dimaxis('ng', el); own = eax if short else ng
        if short:
            c = Size([eax]) < Size([ng]); S.pre.append(t.ascond(c))
        r = {'zones': zones, 'req': S.array('req', [nz]), 'cost': S.array('cost', [own])}
        if qty: r['qty'] = S.array('qty', [own])
        ppc['reserves'] = r; GW.update(ng=ng, nz=nz, el=el, eax=eax, short=short, r=snapshot(r), qty=qty, many=many)
        return [ppc]
    return f
def ext_post(out, args, snap, ghost, it):
    cl = c13.Eager(); r0, ng, nz, el, eax, short = [GW[k] for k in ('r', 'ng', 'nz', 'el', 'eax', 'short')]
    c13.e2i_post(out, args[:1], snap[:1], ghost, it); perm = c13.W['perm']; axg = c13.axes()[1]
    r = out['reserves']; iel = dimaxis('ng', lambda k: t.mkand(axg.cond(k), el(perm(k))))
    for n in ('cost', 'qty'):
        if n not in r0: cl.append(('no %s made up' % n, lambda n=n: n not in r)); continue
        x = snapshot(r[n]); cl.append((n + ': per generator in service', lambda x=x: x.ndim == 1 and A.mask_equiv(x.axes[0], axg)))
        full = (lambda g, n=n: t.ite(el(g), r0[n].num(g), t.ZERO)) if short else (lambda g, n=n: r0[n].num(g))
        cl.append((n + ': of the generator', Claim([axg], lambda k, x=x, full=full: x.num(k) - full(perm(k)))))
    z = snapshot(r['zones']); cl.append(('zones: per generator in service', lambda: z.ndim == 2 and A.match_axes(z.axes[0], nz) is None and A.mask_equiv(z.axes[1], axg)))
    cl.append(('zones: of the generator', Claim([nz, axg], lambda i, k: z.num(i, k) - r0['zones'].num(i, perm(k)))))
    cl += same('requirements', r['req'], r0['req'])
    g = snapshot(r['igr']); e = snapshot(out['order']['ext']['reserves']['igr'])
    pg = out['gen'].axes[0]
    cl += [('eligible in service', lambda: g.ndim == 1 and A.mask_equiv(g.axes[0], iel)), ('eligible in service: their numbers', Claim([iel], lambda k: g.num(k) - t.mk('idx', A.position(pg, k)))), ('eligible outside', lambda: e.ndim == 1 and A.mask_equiv(e.axes[0], eax)), ('eligible outside: their numbers', Claim([eax], lambda i: t.br(A.ixeq(A.resolve(A.as_index(e.entry(i)), ng), i)) - 1))]
    if short: cl.append(('given data kept', lambda: all(n in r['original'] for n in ('cost', 'qty') if n in r0)))
    return cl
CONTRACTS += [FunContract(reserves_inside, None, {'any': ext_args(m, s, q)}, post=ext_post, name='userfcn_reserves_ext2int(%s, costs of %s%s)' % ('zones' if m else 'one zone', 'eligible units' if s else 'every unit', ', quantities' if q else '')) for m in (True, False) for s in (True, False) for q in (True, False)]


# ---- reported reserves: packaged from the solution, in the order of the case given -------------------
from pypower.i2e_data import i2e_data
from pypower.i2e_field import i2e_field
def st_i2e(interp, results, val, old, ordering, dim=0):
    k = Tok('external form'); log(interp, 'i2e_data', [val, old, ordering, dim], k); k.val = snapshot(val); k.old = snapshot(old); k.how = (ordering, dim); return k
def st_field(interp, results, field, ordering, dim=0):
    interp.ghost.append(('i2e_field', tuple(field), ordering, dim)); return results
def back_args(qty, orig):
    def f(S):
        ng, ng0, nz = S.dim('ng', 1, 4), S.dim('ng0', 1, 5), S.dim('nz', 1, 3); S.pre.extend(nonempty(ng, ng0, nz)); base = S.scalar('baseMVA', 'p')
        ax = dimaxis('ng', lambda g: t.pred('eligible', (g,))); ax0 = dimaxis('ng0', lambda g: t.pred('eligible0', (g,)))
        v = {n: S.array(n, [ax]) for n in ('x', 'lo', 'hi', 'mul', 'muu', 'mup')}
        r = {'zones': S.array('zones', [nz, ng0]), 'req': S.array('req', [nz]), 'cost': S.array('cost', [ng0]), 'rgens': S.array('rgens', [ng0]), 'igr': SArray([ax], lambda i: t.mk('idx', i), 'i')}
        if qty: r['qty'] = S.array('qty', [ng0])
        if orig: r['original'] = {n: Tok('given ' + n) for n in (('cost', 'qty') if qty else ('cost',))}
        igr0 = SArray([ax0], lambda i: t.mk('idx', i), 'i')
        om = opf_model({}); om.var['idx']['i1']['R'] = 0; om.var['idx']['iN']['R'] = Size([ax]); om.var['idx']['N']['R'] = Size([ax]); om.var['order'].append('R'); om.var['N'] = Size([ax]); om.var['NS'] = 1
        for n, k in (('v0', 'x'), ('vl', 'lo'), ('vu', 'hi')): om.var['data'][n]['R'] = v[k]
        mureq = S.array('mureq', [nz])
        res = {'reserves': r, 'baseMVA': base, 'gen': S.table('gen', ng, 25, {0: ('index', 'nb')}), 'om': om, 'order': {'ext': {'gen': S.table('gen0', ng0, 25, {0: ('index', 'nb')}), 'reserves': {'igr': igr0}}, 'int': {'reserves': {}}},
               'var': {'val': {'R': v['x']}, 'mu': {'l': {'R': v['mul']}, 'u': {'R': v['muu']}}}, 'lin': {'mu': {'l': {'Rreq': mureq, 'Pg_plus_R': S.array('mupl', [ax])}, 'u': {'Pg_plus_R': v['mup'], 'Rreq': S.array('murequ', [nz])}}}, 'cost': {'Rcost': S.scalar('rc')}}
        GW.update(ng=ng, ng0=ng0, ax=ax, ax0=ax0, base=base, v=snapshot(v), qty=qty, orig=orig, igr=r['igr'], igr0=igr0, res=res, given=r.get('original'))
        return [res]
    return f
def back_post(out, args, snap, ghost, it):
    ng, ng0, ax, base, v = [GW[k] for k in ('ng', 'ng0', 'ax', 'base', 'v')]; cl = []; r = out['reserves']
    F = [g[1:] for g in ghost if isinstance(g, tuple) and g[0] == 'i2e_field']
    want = {('reserves', 'cost'): 0, ('reserves', 'zones'): 1, ('reserves', 'rgens'): 1}
    if GW['qty']: want[('reserves', 'qty')] = 0
    cl.append(('data put back in the order given', lambda: len(F) == len(want) and all(f[0] in want and f[1] == 'gen' and (want[f[0]] == f[2] or f[0][1] not in ('zones', 'rgens')) for f in F) and len({f[0] for f in F}) == len(want)))
    for n, x, up in (('R', 'x', True), ('Rmin', 'lo', True), ('Rmax', 'hi', True), ('mu.l', 'mul', False), ('mu.u', 'muu', False), ('mu.Pmax', 'mup', False)):
        y = r
        for q in n.split('.'): y = y.get(q) if isinstance(y, dict) else None
        if not isinstance(y, Tok) or not hasattr(y, 'val'): cl.append((n + ' is reported', lambda: False)); continue
        cl.append((n + ': per generator', lambda y=y: y.how[0] == 'gen' and y.val.ndim == 1 and A.match_axes(y.val.axes[0], ng) is None and A.match_axes(y.old.axes[0], ng0) is None))
        cl.append((n + ': nothing elsewhere', Claim([ng0], lambda g, y=y: y.old.num(g))))
        cl.append((n, Claim([ng], lambda g, y=y, x=x, up=up: y.val.num(g) - t.br(ax.cond(g)) * v[x].num(g) * (base if up else 1 / base))))
    cl += [('eligible units as given', lambda: r['igr'] is GW['igr0']), ('and inside', lambda: out['order']['int']['reserves']['igr'] is GW['igr']), ('cost of reserves', lambda: r['totalcost'] is GW['res']['cost']['Rcost'])]
    if GW['orig']: cl.append(('data as given', lambda: all(r[n] is k for n, k in GW['given'].items()) and 'original' not in r))
    return cl
CONTRACTS += [FunContract(TR.userfcn_reserves_int2ext, None, {'any': back_args(q, o)}, post=back_post, modifies=(0,), callees=[stub(i2e_data, st_i2e), stub(i2e_field, st_field)], name='userfcn_reserves_int2ext(%s%s)' % ('quantities' if q else 'no quantities', ', data of eligible units' if o else '')) for q in (True, False) for o in (True, False)]


# ---- interface limits ------------------------------------------------------------------------
TI = sys.modules.get('pypower.toggle_iflims') or __import__('importlib').import_module('pypower.toggle_iflims')
from pypower.makeBdc import makeBdc
def if_world(S):
    nb, nl, m, n = S.dim('nb', 1, 3), S.dim('nl', 1, 4), S.dim('m', 1, 4), S.dim('nif', 1, 3); S.pre.extend(nonempty(nb, nl, m, n)); base = S.scalar('baseMVA', 'p')
    S.ifs['mbr'] = ('nl', None)
    fmap = S.table('ifmap', m, 3, {1: ('index', 'nl'), 2: ('enum', (-1, 1))}); lims = S.table('iflims', n, 3, {})
    Bf = S.array('Bf', [nl, nb], storage='sparse'); Pf = S.array('Pfinj', [nl])
    ppc = {'version': '2', 'baseMVA': base, 'bus': bus_table(S, nb), 'branch': branch_table(S, nl), 'if': {'map': fmap, 'lims': lims}}
    GW.update(nb=nb, nl=nl, m=m, n=n, base=base, map=fmap, lims=lims, Bf=Bf, Pf=Pf, ppc=ppc)
    return ppc
def if_form_args(S):
    ppc = if_world(S); om = opf_model(ppc); nb = GW['nb']; GW['om'] = om
    om.var['idx']['i1']['Va'] = 0; om.var['idx']['iN']['Va'] = Size([nb]); om.var['idx']['N']['Va'] = Size([nb]); om.var['order'].append('Va'); om.var['N'] = Size([nb]); om.var['NS'] = 1
    return [om]
def of_if(k, f): return A.sum_over(GW['m'], lambda r: t.br(t.cmp_eq(GW['map'].num(r, 0), GW['lims'].num(k, 0))) * GW['map'].num(r, 2) * f(row(GW['nl'], GW['map'], 1, r)))
def if_form_post(out, args, snap, ghost, it):
    om, nb, n, base = GW['om'], GW['nb'], GW['n'], GW['base']; cl = []
    if out is not om or list(om.lin['order']) != ['iflims'] or list(om.var['order']) != ['Va'] or om.cost['order']: return [('the model with the interface constraints and nothing else', lambda: False)]
    c = om.lin['data']; M, l, u = [snapshot(c[k]['iflims']) for k in ('A', 'l', 'u')]
    cl += [('on the voltage angles', lambda: [v['name'] if isinstance(v, dict) else v for v in c['vs']['iflims']] == ['Va']), ('one row per interface', lambda: A.match_axes(M.axes[0], n) is None and A.match_axes(M.axes[1], nb) is None and A.match_axes(l.axes[0], n) is None and A.match_axes(u.axes[0], n) is None)]
    cl.append(('flow over its branches', Claim([n, nb], lambda k, j: M.num(k, j) - of_if(k, lambda b: GW['Bf'].num(b, j)))))
    for nm, x, col in (('lower', l, 1), ('upper', u, 2)): cl.append((nm + ' limit', Claim([n], lambda k, x=x, col=col: x.num(k) - GW['lims'].num(k, col) / base + of_if(k, lambda b: GW['Pf'].num(b)))))
    return cl
def st_bdc(interp, base, bus, branch):
    interp.side += [('the DC model of this case', lambda: base is GW['base'] and bus is GW['ppc']['bus'] and branch is GW['ppc']['branch'])]
    nb = GW['nb']; return SArray([nb, nb], lambda i, j: t.inp('Bbus', (i, j)), 'f'), GW['Bf'].copy(), SArray([nb], lambda i: t.inp('Pbusinj', (i,)), 'f'), GW['Pf'].copy()
CONTRACTS.append(FunContract(TI.userfcn_iflims_formulation, None, {'any': if_form_args}, post=if_form_post, modifies=(0,), callees=[stub(makeBdc, st_bdc)]))

def if_back_args(S):
    ppc = if_world(S); n, nl = GW['n'], GW['nl']
    br = branch_table(S, nl, ncols=17, name='solved'); ext = Tok('map as given'); mu = [Tok('mu.l'), Tok('mu.u')]
    res = {'if': ppc['if'], 'branch': br, 'baseMVA': GW['base'], 'order': {'ext': {'ifmap': ext}}, 'lin': {'mu': {'l': {'iflims': mu[0]}, 'u': {'iflims': mu[1]}}}}
    GW.update(br=br, ext=ext, mu=mu, res=res)
    return [res]
def if_back_post(out, args, snap, ghost, it):
    r = out['if']; n = GW['n']
    if not isinstance(r.get('P'), SArray): return [('flows reported', lambda: False)]
    P = snapshot(r['P']); cl = [('one flow per interface', lambda: P.ndim == 1 and A.match_axes(P.axes[0], n) is None), ('flow over its branches', Claim([n], lambda k: P.num(k) - of_if(k, lambda b: GW['br'].num(b, 13)))),
      ('map as given', lambda: r['map'] is GW['ext']), ('limits as given', lambda: r['lims'] is GW['lims']), ('prices of the interface rows', lambda: r['mu']['l'] is GW['mu'][0] and r['mu']['u'] is GW['mu'][1])]
    return cl
CONTRACTS.append(FunContract(TI.userfcn_iflims_int2ext, None, {'any': if_back_args}, post=if_back_post, modifies=(0,)))
def if_inside(ppc): return TI.userfcn_iflims_ext2int(ext2int(ppc))
if_inside.__pv_interpret__ = True
def if_ext_args(S):
    ppc = c13.world(S); nl = c13.W['nl']; m = S.dim('m', 1, 4); S.pre.extend(nonempty(m)); S.ifs['mbr'] = ('nl', None)
    br = lambda r: t.ifun('mbr', (r,), 'nl'); neg = lambda r: t.pred('against', (r,))
    num = lambda r: t.mk('idx', br(r))
    for r in (t.iv('r', 'm'),): pass
    mp = S.table('ifmap', m, 2, {1: lambda r: t.ite(neg(r), -num(r), num(r))}); GW.update(m=m, map0=snapshot(mp), br=br, neg=neg, nl=nl)
    ppc['if'] = {'map': mp, 'lims': S.table('iflims', S.dim('nif', 1, 3), 3, {})}
    return [ppc]
def if_ext_post(out, args, snap, ghost, it):
    axl = c13.axes()[2]; br, neg, m0 = GW['br'], GW['neg'], GW['map0']; X = snapshot(out['if']['map']); rows = dimaxis('m', lambda r: axl.cond(br(r)))
    cl = c13.Eager(); cl.append(('branches in service', lambda: X.ndim == 2 and A.mask_equiv(X.axes[0], rows)))
    pl = out['branch'].axes[0]
    cl += [('interface', Claim([rows], lambda r: X.num(r, 0) - m0.num(r, 0))), ('branch', Claim([rows], lambda r: X.num(r, 1) - t.mk('idx', A.position(pl, br(r))))), ('direction', Claim([rows], lambda r: X.num(r, 2) - t.ite(m0.num(r, 1) < 0, -t.ONE, t.ONE)))]
    return cl
CONTRACTS.append(FunContract(if_inside, None, {'any': if_ext_args}, post=if_ext_post, name='userfcn_iflims_ext2int'))

# ---- run-time evaluation -------------------------------------------------------------------------
class Fn(object):
    def __init__(self, n): self.__name__ = n; self.seen = []
    def __call__(self, *a): self.seen.append(a); LOG.append((self, a)); return Tok('result %d' % len(LOG))
LOG = []
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): return f(*a, **k)
def rt_lists(rng, k):
    """any mix of adding, removing and running; the registered list is kept beside"""
    fns = [Fn('f%d' % j) for j in range(3)]; ppc = {}; kept = {s: [] for s in STAGES}; stages = list(rng.permutation(STAGES)[:2]) + [STAGES[rng.randint(5)]]
    import sys as _s
    err = _s.stderr; _s.stderr = io.StringIO()
    try:
        for step in range(rng.randint(1, 12)):
            s = stages[rng.randint(3)]; f = fns[rng.randint(3)]; what = rng.randint(3)
            if what == 0 or 'userfcn' not in ppc or s not in ppc['userfcn']:
                a = [None, [], ['a', step], {'k': step}, step, 'text', np.arange(3) + step][rng.randint(7)]; again = f in [x[0] for x in kept[s]]
                r = quiet(add_userfcn, ppc, s, f, a, True) if a is not None or rng.rand() < .5 else quiet(add_userfcn, ppc, s, f, allow_multiple=True)
                need(r is ppc, 'add_userfcn returns the case'); kept[s].append((f, [] if a is None else a))
            elif what == 1:
                if f not in [x[0] for x in kept[s]] and rng.rand() < .5: continue
                r = remove_userfcn(ppc, s, f); at = [j for j, x in enumerate(kept[s]) if x[0] is f]
                need(r is ppc, 'remove_userfcn returns the case')
                if at: del kept[s][at[-1]]
            else:
                del LOG[:]; first = Tok('first'); extra = (FD, OPT) if s in ('printpf', 'savecase') else ()
                out = run_userfcn(ppc['userfcn'], s, first, *extra)
                need([x[0] for x in LOG] == [x[0] for x in kept[s]], 'callbacks run in registration order', stage=s, got=[x[0].__name__ for x in LOG], registered=[x[0].__name__ for x in kept[s]])
                v = first
                for j, ((g, a), (f_, own)) in enumerate(zip(LOG, kept[s])):
                    need(a[0] is v or (j > 0 and isinstance(a[0], Tok) and a[0].n == 'result %d' % j), 'callback %d gets the value so far' % j); need(a[1:-1] == extra, 'stage arguments'); need(a[-1] is own or (isinstance(own, list) and a[-1] == own), 'its own arguments', got=str(a[-1]), expected=str(own))
                need(out is first if not LOG else isinstance(out, Tok) and out.n == 'result %d' % len(LOG), 'the last value is returned')
            for q in STAGES: need([e['fcn'] for e in ppc.get('userfcn', {}).get(q, [])] == [x[0] for x in kept[q]], 'registered callbacks of %s' % q)
    finally: _s.stderr = err
    return tuple(sorted(len(v) for v in kept.values()))
def reserve_case(rng):
    c = G.external_case(rng); ng, base = c['gen'].shape[0], c['baseMVA']; nz = rng.randint(1, 4)
    c['gen'][:, RAMP_10] = rng.uniform(5, 40, ng) * (rng.rand(ng) < .7)
    zones = (rng.rand(nz, ng) < .5).astype(float)
    if not zones.any(): zones[0, rng.randint(ng)] = 1
    el = zones.any(0); short = rng.rand() < .5; n = el.sum() if short else ng
    r = {'zones': zones, 'req': rng.uniform(1, 9, nz), 'cost': rng.uniform(1, 9, n)}
    if rng.rand() < .6: r['qty'] = rng.uniform(5, 40, n)
    c['reserves'] = r
    return c, el, short
def rt_reserves(rng, k):
    """the model of a case with reserves: each declared limit, generator by generator, in the case's own numbering"""
    from pypower.toggle_reserves import toggle_reserves
    c, el, short = reserve_case(rng); c0 = copy.deepcopy(c); base = c['baseMVA']; ng0 = c['gen'].shape[0]
    quiet(toggle_reserves, c, 'on'); need([len(c['userfcn'][s]) for s in STAGES] == [1] * 5, 'the extension registers every stage once')
    off = copy.deepcopy(c); quiet(toggle_reserves, off, 'off'); need(all(not off['userfcn'][s] for s in STAGES), 'and removes them')
    try: i = quiet(ext2int, c)
    except Exception:
        j = copy.deepcopy(c0); del j['reserves']
        try: j = ext2int(j)
        except Exception: raise Skip()
        if not len(j['gen']): raise Skip()
        raise
    o = i['order']; g = o['gen']['status']['on'][o['gen']['e2i']].astype(int)       # rows of the case, in the order of the model
    if not len(g): raise Skip()
    full = lambda n: (np.bincount(np.where(el)[0], c0['reserves'][n], ng0) if short else c0['reserves'][n])
    R = i['reserves']; needclose(R['cost'], full('cost')[g], 'cost in model order'); needclose(R['zones'], c0['reserves']['zones'][:, g], 'zones in model order')
    need(np.array_equal(R['igr'], np.where(el[g])[0]), 'eligible units in service', got=R['igr'], expected=np.where(el[g])[0])
    ng = len(g); e = np.where(el[g])[0]; n = len(e)
    if not n: raise Skip()
    om = opf_model(i); om.add_vars('Pg', ng); TR.userfcn_reserves_formulation(om)
    x0, lo, hi = om.getv('R'); ramp = c0['gen'][g[e], RAMP_10]; top = np.where(ramp == 0, np.inf, ramp)
    if 'qty' in c0['reserves']: top = np.minimum(top, full('qty')[g[e]])
    need(lo.shape == (n,) and (lo == 0).all(), 'reserve at least zero'); need(hi.shape == (n,) and np.allclose(np.where(np.isinf(top), 0, hi * base), np.where(np.isinf(top), 0, top)) and np.array_equal(np.isinf(hi), np.isinf(top)), 'reserve within ramp and quantity', got=hi * base, expected=top)
    M, l, u = om.linear_constraints(); ll = om.get_idx()[1]; p, r = rng.uniform(-1, 1, ng), rng.uniform(0, 1, n); v = M @ np.r_[p, r]
    need(set(ll['i1']) == {'Pg_plus_R', 'Rreq'}, 'constraints')
    s = slice(ll['i1']['Pg_plus_R'], ll['iN']['Pg_plus_R']); needclose(u[s] - v[s], i['gen'][e, PMAX] / base - p[e] - r, 'headroom'); need(np.isneginf(l[s]).all(), 'headroom has one side')
    s = slice(ll['i1']['Rreq'], ll['iN']['Rreq']); needclose(v[s] - l[s], c0['reserves']['zones'][:, g[e]] @ r - c0['reserves']['req'] / base, 'requirement'); need(np.isposinf(u[s]).all() or (u[s] >= 1e10).all(), 'requirement has one side')
    om.build_cost_params(); cp = om.get_cost_params(); w = cp['N'] @ np.r_[p, r]; needclose(np.sum(cp['Cw'] * (w - cp['rh']) * cp['mm']), full('cost')[g[e]] @ r * base, 'cost of reserves')
    return (short, 'qty' in c0['reserves'], len(g) < ng0)
def rt_solve(rng, k):
    """solved cases: the reserves reported for each generator keep to what was declared"""
    from pypower.runopf_w_res import runopf_w_res
    from pypower.t.t_case30_userfcns import t_case30_userfcns
    c = t_case30_userfcns(); ng = c['gen'].shape[0]; c['gen'][:, RAMP_10] = rng.uniform(8, 30, ng) * (rng.rand(ng) < .6)
    perm = rng.permutation(ng); c['gen'], c['gencost'] = c['gen'][perm], c['gencost'][perm]
    if rng.rand() < .6: c['gen'][rng.randint(ng), GEN_STATUS] = 0
    nz = rng.randint(1, 3); zones = (rng.rand(nz, ng) < .7).astype(int); zones[:, 0] = 1; zones[:, 1] = 1; el = zones.any(0); short = rng.rand() < .5; n = el.sum() if short else ng
    r = {'zones': zones, 'req': rng.uniform(5, 12, nz), 'cost': rng.uniform(1, 9, n)}
    if rng.rand() < .6: r['qty'] = rng.uniform(12, 25, n)
    c['reserves'] = r; c0 = copy.deepcopy(c)
    s = quiet(runopf_w_res, c, ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=bool(k % 2), OPF_ALG_DC=200))
    if not s['success']: raise Skip()
    q = s['reserves']; R = q['R']; on = (c0['gen'][:, GEN_STATUS] > 0) & el
    need(R.shape == (ng,) and (np.abs(R[~on]) < 1e-9).all(), 'no reserve from units out of service or of no zone', got=R)
    full = lambda m: (np.bincount(np.where(el)[0], c0['reserves'][m], ng) if short else c0['reserves'][m])
    top = np.where(c0['gen'][:, RAMP_10] == 0, np.inf, c0['gen'][:, RAMP_10])
    if 'qty' in r: top = np.minimum(top, full('qty'))
    need((R > -1e-4).all() and (R[on] < top[on] + 1e-3).all(), 'reserve within its limits', got=R, limit=top); need((s['gen'][on, PG] + R[on] < c0['gen'][on, PMAX] + 1e-3).all(), 'headroom'); need((zones @ R > c0['reserves']['req'] - 1e-3).all(), 'requirements met', got=zones @ R, expected=c0['reserves']['req'])
    needclose(q['Rmax'][on], np.where(np.isfinite(top[on]), top[on], q['Rmax'][on]), 'Rmax'); need((q['Rmin'] == 0).all(), 'Rmin')
    need(abs(q['totalcost'] - full('cost') @ R) < 1e-3 * (1 + abs(q['totalcost'])), 'total cost', got=q['totalcost'], expected=full('cost') @ R)
    for m in ('cost', 'qty', 'zones'): need(m not in c0['reserves'] or np.array_equal(q[m], c0['reserves'][m]), 'declared %s returned as given' % m)
    for m in ('l', 'u', 'Pmax'): need(q['mu'][m].shape == (ng,) and (q['mu'][m] > -1e-6).all(), 'multipliers')
    need((q['mu']['u'][on][R[on] < np.minimum(top[on], 1e6) - .1] < 1e-2).all() and (q['mu']['l'][on][R[on] > .1] < 1e-2).all() and (q['mu']['Pmax'][on][(c0['gen'][:, PMAX] - s['gen'][:, PG] - R)[on] > .1] < 1e-2).all(), 'a price only on a limit that binds')
    return (nz, short, 'qty' in r)
def rt_interfaces(rng, k):
    """interface rows of the model of a case, and of a solved one"""
    from pypower.toggle_iflims import toggle_iflims
    from pypower.t.t_case30_userfcns import t_case30_userfcns
    from pypower.runopf import runopf
    solve = k % 8 == 7
    c = t_case30_userfcns() if solve else G.external_case(rng)
    if 'reserves' in c: del c['reserves']
    if solve: c['branch'][rng.randint(3), 10] = 0
    nl, base = c['branch'].shape[0], c['baseMVA']; n = rng.randint(1, 4); num = rng.permutation(6)[:n] + 1
    mp = [(num[rng.randint(n)], b * rng.choice([-1, 1])) for b in rng.permutation(nl)[:rng.randint(1, nl + 1)]]; mp = np.array(mp)[:8 if solve else None]
    lims = np.c_[num, -rng.uniform(200, 300, n), rng.uniform(200, 300, n)]
    c['if'] = {'map': mp.astype(float) if rng.rand() < .5 else mp, 'lims': lims}; c0 = copy.deepcopy(c)
    quiet(toggle_iflims, c, 'on'); need([len(c['userfcn'][s]) for s in STAGES] == [1] * 5, 'the extension registers every stage once')
    on = c0['branch'][:, 10] > 0; br = np.abs(mp[:, 1]).astype(int); d = np.where(mp[:, 1] < 0, -1, 1)
    if solve:
        s = quiet(runopf, c, ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=True, OPF_ALG_DC=200))
        if not s['success']: raise Skip()
        P = np.array([(d * on[br] * s['branch'][br, 13])[mp[:, 0] == i].sum() for i in num]); needclose(s['if']['P'], P, 'interface flows', tol=1e-6)
        need((P > lims[:, 1] - 1e-3).all() and (P < lims[:, 2] + 1e-3).all(), 'within the limits'); need(np.array_equal(s['if']['map'], c0['if']['map']), 'the map given', got=s['if']['map'], expected=mp); need(s['if']['mu']['l'].shape == (n,), 'prices')
        out = io.StringIO(); TI.userfcn_iflims_printpf(s, out, ppoption(OUT_ALL=1)); need(len([x for x in out.getvalue().splitlines() if x[:6].strip().isdigit()]) == n, 'printed interfaces')
        return ('solved', n)
    try: i = quiet(ext2int, c)
    except Exception:
        j = copy.deepcopy(c0); del j['if']
        try: ext2int(j)
        except Exception: raise Skip()
        raise
    if not len(i['branch']): raise Skip()
    nb = len(i['bus']); om = opf_model(i); om.add_vars('Va', nb); quiet(TI.userfcn_iflims_formulation, om)
    M, l, u = om.linear_constraints(); va = rng.uniform(-1, 1, nb); e2i = -np.ones(nl, int); e2i[i['order']['branch']['status']['on']] = np.arange(len(i['branch']))
    _, Bf, _, Pf = makeBdc(base, i['bus'], i['branch']); f = Bf @ va + Pf; need(M.shape == (n, nb), 'one row per interface', got=M.shape)
    F = np.array([sum(s * f[e2i[b]] for (q, x), b, s in zip(mp, br, d) if q == m and e2i[b] >= 0) for m in num]); v = M @ va
    needclose(v - l, F - lims[:, 1] / base, 'lower limit of an interface'); needclose(u - v, lims[:, 2] / base - F, 'upper limit of an interface')
    return ('model', n, bool((~on[br]).any()))
RUNTIME = [RT('interface limits', rt_interfaces, 80, 1500, ['toggle_iflims', 'userfcn_iflims_ext2int', 'userfcn_iflims_formulation', 'userfcn_iflims_int2ext'], 'networks up to 9 buses and a 30-bus case'),
           RT('registering, removing and running callbacks', rt_lists, 300, 6000, ['add_userfcn', 'remove_userfcn', 'run_userfcn'], 'up to 12 operations'),
           RT('the reserve model of a case', rt_reserves, 120, 3000, ['toggle_reserves', 'userfcn_reserves_ext2int', 'userfcn_reserves_formulation'], 'networks up to 9 buses, up to 3 zones'),
           RT('solved reserves', rt_solve, 10, 120, ['runopf_w_res', 'userfcn_reserves_int2ext'], 'variations of a 30-bus case')]
LEVEL = 'proof'
ASSUMPTIONS = ['run_userfcn: callbacks are arbitrary functions, any number of them per stage; adding and removing callbacks is evaluated on the real code for bounded lists (labelled bounded, not counted as proved)',
               'reserve data in the documented form: zones over all generators, costs and quantities for all of them or for the eligible ones only (then fewer than all), the number of zones positive', 'int2ext stage: i2e_data and i2e_field by contract (C13)', 'the price column prc and the text printed or saved are outside the property', 'makeBdc by contract (C03); a branch number carries its direction as its sign, branch 0 counts as positive']
EXPLANATION = 'run_userfcn under contract with a loop invariant over a list of callbacks of any length: each is called once, at its position, with the value so far, the arguments of its stage and its own; the ext2int, formulation and int2ext stages of the reserve extension under contract for any number of generators, zones and eligible units: variables, bounds, headroom and requirement rows, costs and reported quantities, in the order of the units in service or of the case given. The interface extension likewise: the map converted to branches in service, one row per interface bounding the DC flow over its branches, the flow reported.'
TRUSTED = ['exec in e2i_field interpreted as the assignment it spells']
FILES = ['run_userfcn', 'add_userfcn', 'remove_userfcn', 'toggle_reserves', 'ext2int', 'e2i_field', 'e2i_data', 'get_reorder', 'opf_model', 'toggle_iflims']
