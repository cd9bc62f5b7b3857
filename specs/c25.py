"""C25: unit decommitment never returns a worse schedule than one it evaluated, and only shuts down units that qualify."""
from pv.verify import FunContract, Claim, snapshot
from pv.runner import RT, Skip
from pv import terms as t, arrays as A
from pv.arrays import SArray, Size, dimaxis, fixaxis
from pv.loops import LoopContract
from pv.npmodel import m_deepcopy
from .net import *
from .drv import stub, log, calls
from .c28 import same
from . import gen as G
from .gen import need, needclose
import ast, sys, copy, io, contextlib
import numpy as np
from pypower.uopf import uopf
from pypower.opf import opf
from pypower.opf_args import opf_args2
from pypower.totcost import totcost
from pypower.fairmax import fairmax
from pypower.ppoption import ppoption
from pypower.idx_gen import *
from pypower.idx_bus import *
UO = sys.modules['pypower.uopf']

NGC, NBC = 25, 17
GOUT = [PG, QG, VG, MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN]                # what an opf reports in the generator table
BOUT = [VM, VA, LAM_P, LAM_Q, MU_VMAX, MU_VMIN]                        # ... and in the bus table
W = {}
def load_(gen, g): return t.mkand(gen.num(g, PMIN) < 0, t.eq0(gen.num(g, PMAX)))
def eligible(g):
    """a unit the heuristic may shut down: in service with a positive minimum output"""
    G0 = W['gen0']; return t.mkand(t.mknot(t.eq0(G0.num(g, GEN_STATUS))), t.ZERO < G0.num(g, PMIN))

class Rec(object):
    """the result of one opf"""
    def __init__(self, tag, ok, f, gen, bus): self.tag = tag; self.ok = ok; self.f = f; self.gen = gen; self.bus = bus
    def value(self): return {'raw': self.tag, 'success': self.ok, 'f': self.f, 'gen': self.gen.copy(), 'bus': self.bus.copy(), 'branch': W['branch0'].copy(), 'baseMVA': W['base'], 'et': t.inp('et' + self.tag, ())}
def new_rec(tag, ok, gen_in, bus_in):
    """contract of opf: generators keep their rows and data; those out of service are reported at zero output with no multiplier"""
    gi, bi = snapshot(gen_in), snapshot(bus_in); out = set(GOUT)
    def gen(g, c):
        c = int(c)
        if c not in out: return gi.num(g, c)
        x = t.inp('gen%s[%d]' % (tag, c), (g,))
        return t.ite(t.eq0(gi.num(g, GEN_STATUS)), t.ZERO, x) if c in (PG, QG, MU_PMAX, MU_PMIN) else x
    def bus(i, c):
        c = int(c)
        return t.inp('bus%s[%d]' % (tag, c), (i,)) if c in BOUT else bi.num(i, c)
    r = Rec(tag, ok, t.inp('f' + tag, ()), SArray([W['ng'], fixaxis(NGC)], gen), SArray([W['nb'], fixaxis(NBC)], bus))
    W['rec'][tag] = r; return r

def schedule(name, gen, outputs=True, at=None):
    """the generator table is the original one with some qualifying units shut down"""
    G0, ng = W['gen0'], W['ng']; gen = snapshot(gen); s = lambda g: gen.num(g, GEN_STATUS)
    ok = lambda g: t.mkor(t.cmp_eq(s(g), G0.num(g, GEN_STATUS)), t.mkand(t.eq0(s(g)), eligible(g)))
    pts = W['points'] + [p for p in [at] if p is not None]         # the units this path names; every other unit by the first claim
    cl = [(name + ': one row per generator', lambda: A.match_axes(gen.axes[0], ng) is None),
          (name + ': no unit turned on, only qualifying units shut down', Claim([ng], lambda g: t.br(ok(g)) - 1, given=lambda g: [t.mknot(t.eqi(g, p)) for p in pts]))]
    cl += [(name + ': a unit shut down qualifies', ok(p)) for p in pts]
    if outputs: cl += [(name + ': no output when shut down (%s)' % n, Claim([ng], lambda g, c=c: gen.num(g, c), given=lambda g: [t.eq0(s(g)), t.mknot(t.eq0(G0.num(g, GEN_STATUS)))])) for c, n in ((PG, 'P'), (QG, 'Q'))]
    for c in range(NGC):
        if c not in GOUT and c != GEN_STATUS: cl.append((name + ': column %d as given' % c, Claim([ng], lambda g, c=c: gen.num(g, c) - G0.num(g, c))))
    return cl
def busdata(name, bus):
    bus = snapshot(bus)
    return [(name + ': bus rows', lambda: A.match_axes(bus.axes[0], W['nb']) is None)] + [(name + ': bus column %d as given' % c, Claim([W['nb']], lambda i, c=c: bus.num(i, c) - W['bus0'].num(i, c))) for c in range(NBC) if c not in BOUT]
def is_rec(name, x, rec):
    """x holds one opf's result, unchanged"""
    if not isinstance(x, dict): return [(name + ': a result', lambda: False)]
    y = {k: snapshot(v) if isinstance(v, SArray) else v for k, v in x.items()}
    cl = [(name + ': fields of one result', lambda: y['raw'] == rec.tag and y['success'] is rec.ok), (name + ': its cost', t.cmp_eq(t.lift(y['f']), rec.f))]
    for k, z, n, w in (('gen', rec.gen, W['ng'], NGC), ('bus', rec.bus, W['nb'], NBC)):
        cl.append(('%s: its %s table' % (name, k), lambda k=k, n=n: A.match_axes(y[k].axes[0], n) is None and y[k].axes[1].n == w if False else A.match_axes(y[k].axes[0], n) is None))
        cl += [('%s: its %s column %d' % (name, k, c), Claim([n], lambda g, k=k, z=z, c=c: y[k].num(g, c) - z.num(g, c))) for c in range(w)]
    return cl
def le(a, b): return t.mknot(b < a)
def no_worse(name, f):
    """cost no greater than that of any schedule evaluated successfully so far"""
    cl = [('%s: no worse than schedule %s' % (name, r.tag), le(f, r.f)) for r in W['called'] if r.ok]
    for e in ('earlier', 'earlier2'):
        if W.get(e) is not None: cl.append((name + ': no worse than any earlier schedule', le(f, W[e])))
    return cl

# ---- contracts of the callees ---------------------------------------------------------------------
def st_args(interp, *a, **k):
    for n in ('in1', 'outer', 'inner', 'best', 'earlier', 'earlier2'): W.pop(n, None)
    W['rec'].clear(); W['called'][:] = []; W['most'][:] = []; W['points'][:] = []
    W['ppc'].update(bus=W['bus0'].copy(), gen=W['gen0'].copy(), branch=W['branch0'], gencost=W['gencost0'])
    return W['ppc'], W['opt']
def st_opf(interp, ppc, opt=None, *rest):
    tag = '#%d' % len(W['rec'])
    interp.side.extend(('case handed to the opf: ' + n, c) for n, c in schedule('generators', ppc['gen'], outputs=False) + busdata('buses', ppc['bus']))
    kept = ppc['branch'] is W['branch0'] and ppc['gencost'] is W['gencost0'] and ppc['baseMVA'] is W['base']
    interp.side.append(('case handed to the opf: everything else as given', lambda: kept))
    ok = bool(interp.decide(t.pred('success' + tag, ())))
    r = new_rec(tag, ok, ppc['gen'], ppc['bus']); W['called'].append(r)
    return r.value()
def st_cost(interp, gencost, Pg):
    interp.side.append(('cost: one row per unit', lambda: A.match_axes(gencost.axes[0], Pg.axes[0]) is None))
    return SArray([Pg.axes[0]], lambda i: t.inp('cost', (i,)))
def st_fair(interp, x):
    """one of the positions of the largest entry"""
    ax = x.axes[0]; v = t.ifun('most', (t.const(len(W['most'])) if hasattr(t, 'const') else t.q(len(W['most'])),), ax.dim if ax.kind == 'dim' else None); W['most'].append(v); W['points'].append(v)
    interp.path.append(ax.cond(v))
    return t.inp('largest', ()), t.mk('idx', A.position(ax, v))
def stubs(): return [stub(opf_args2, st_args), stub(opf, st_opf), stub(totcost, st_cost), stub(fairmax, st_fair)]

# ---- loops ------------------------------------------------------------------------------------------
def is_result(x): return isinstance(x, dict) and 'raw' in x
def fresh_results(stmt):
    """names the loop assigns straight from an opf"""
    out = set()
    for n in ast.walk(stmt):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
            f = n.value.func; nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if nm == 'opf': out |= {x.id for y in n.targets for x in ast.walk(y) if isinstance(x, ast.Name)}
    return out
def down(tag): return lambda g: t.mkand(t.pred('down' + tag, (g,)), eligible(g))
def some_gen(tag, shut):
    G0 = W['gen0']
    def gen(g, c):
        c = int(c)
        if c == GEN_STATUS: return t.ite(shut(g), t.ZERO, G0.num(g, c))
        if c in (PG, QG): return t.ite(shut(g), t.ZERO, G0.num(g, c))
        return G0.num(g, c)
    return gen
def first_loop():
    """sum(Pmin) against the load: the table is the original one with some units shut down"""
    def state(fr): return fr.loc['ppc']['gen']
    def onset(gen): return dimaxis('ng', lambda g: t.mkand(t.mknot(t.eq0(gen.num(g, GEN_STATUS))), t.mknot(load_(gen, g))))
    st = {}
    def roles(interp, fr):
        out = {}
        for n in interp.loop_names:
            x = fr.loc.get(n)
            if isinstance(x, SArray) and x.ndim == 1: out[n] = x.kind
        return out
    def check(interp, fr):
        gen = snapshot(W['ppc']['gen']); ax = onset(gen); cl = schedule('fitting the load', gen)
        if 'roles' not in st or interp.loop_at is None and not W.get('in1'): st['roles'] = roles(interp, fr); W['in1'] = True
        for n, k in st['roles'].items():
            x = fr.loc.get(n)
            cl.append(('the units considered are those in service', lambda x=x: isinstance(x, SArray) and x.ndim == 1 and A.mask_equiv(x.axes[0], ax)))
            if isinstance(x, SArray) and x.ndim == 1:
                x = snapshot(x)
                if k == 'i': cl.append(('their numbers', Claim([ax], lambda g, x=x: t.br(A.ixeq(A.resolve(A.as_index(x.entry(g)), W['ng']), g)) - 1)))
                else: cl.append(('their minimum outputs', Claim([ax], lambda g, x=x: x.num(g) - W['gen0'].num(g, PMIN))))
        return cl
    def havoc(interp, fr):
        gen = SArray([W['ng'], fixaxis(NGC)], some_gen('a', down('a'))); W['ppc']['gen'] = gen; ax = onset(gen); ch = [gen]
        for n, k in st['roles'].items():
            fr.loc[n] = SArray([ax], (lambda g: t.mk('idx', g)) if k == 'i' else (lambda g: W['gen0'].num(g, PMIN)), 'i' if k == 'i' else 'f')
        return ch
    lc = LoopContract(havoc, check); lc.first = False
    return lc
def flags(fr, names): return {n: fr.loc[n] for n in names if isinstance(fr.loc.get(n), bool)}

def outer_loop():
    st = {}
    def results(interp, fr):
        skip = fresh_results(interp.loop_stmt); return [n for n in sorted(interp.loop_names) if n not in skip and is_result(fr.loc.get(n))]
    def check(interp, fr):
        entry = 'names' not in st or W.get('outer') is None
        if entry: st['names'] = results(interp, fr); W['outer'] = True
        cl = []; ns = st['names']
        if not ns: return [('the best result is kept', lambda: False)]
        rec = W['rec'].get(fr.loc[ns[0]]['raw']) if is_result(fr.loc[ns[0]]) else None
        if rec is None: return [('the best result is kept', lambda: False)]
        for n in ns: cl += is_rec('best so far (%d)' % ns.index(n), fr.loc[n], rec)
        return cl + schedule('best so far', rec.gen) + busdata('best so far', rec.bus) + no_worse('best so far', rec.f) + busdata('next start', W['ppc']['bus'])
    def havoc(interp, fr):
        W['rec'].clear(); W['called'][:] = []
        sh = down('b'); G0 = W['gen0']
        gen_in = SArray([W['ng'], fixaxis(NGC)], some_gen('b', sh)); ok = bool(interp.decide(t.pred('successB', ())))
        B = new_rec('#B', ok, gen_in, W['bus0']); W['best'] = B
        W['earlier'] = t.inp('earlier', ()); interp.path.append(le(B.f, W['earlier']))
        for n in st['names']: fr.loc[n] = B.value()
        W['ppc']['bus'] = new_rec('#X', False, gen_in, W['bus0']).bus
        W['ppc']['gen'] = SArray([W['ng'], fixaxis(NGC)], lambda g, c: t.inp('any[%d]' % int(c), (g,)))
    lc = LoopContract(havoc, check); lc.first = False
    return lc

class _Flags(object):
    def __contains__(self, n): return n in W.get('flagnames', ())
FLAGNAMES = _Flags()
def inner_loop():
    st = {}
    def check(interp, fr):
        if W.get('inner') is None:
            skip = fresh_results(interp.loop_stmt); W['inner'] = True
            st['names'] = [n for n in sorted(interp.loop_names) if n not in skip and is_result(fr.loc.get(n))]
            st['flags'] = flags(fr, interp.loop_names); W['flagnames'] = set(st['flags'])
            st['ks'] = [n.targets[0].id for n in ast.walk(interp.loop_stmt) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and isinstance(interp.loop_stmt.target, ast.Name) and n.value.id == interp.loop_stmt.target.id and isinstance(n.targets[0], ast.Name)]
        cl = []; B = W['best']
        if not st['names']: return [('the best result of the stage is kept', lambda: False)]
        for n in st['names']:
            x = fr.loc.get(n); rec = W['rec'].get(x['raw']) if is_result(x) else None
            if rec is None: return [('the best result of the stage is kept', lambda: False)]
            better = rec is not B
            cl += is_rec('best of the stage', x, rec) + schedule('best of the stage', rec.gen, at=interp.loop_at) + busdata('best of the stage', rec.bus) + no_worse('best of the stage', rec.f)
            if better: cl += [('an improvement was solved', lambda rec=rec: rec.ok), ('an improvement is cheaper', rec.f < B.f)]
            for m, v in st['flags'].items(): cl.append(('the stage goes on exactly when it improved', lambda v=v, better=better, x=fr.loc.get(m): x is (v if not better else not v)))
        cl += busdata('next start', W['ppc']['bus'])
        return cl
    def havoc(interp, fr):
        B = W['best']; better = bool(interp.decide(t.pred('improved', ())))
        if better:
            k = t.ifun('shut', (), 'ng'); W['points'].append(k); gb = B.gen
            interp.path.append(t.mkand(t.ZERO < gb.num(k, MU_PMIN), t.ZERO < gb.num(k, PMIN)))
            gi = SArray([W['ng'], fixaxis(NGC)], lambda g, c: t.ite(A.ixeq(g, k), t.ZERO, gb.num(g, c)) if int(c) in (PG, QG, GEN_STATUS) else gb.num(g, c))
            R = new_rec('#I', True, gi, W['ppc']['bus']); interp.path.append(R.f < B.f); interp.path.append(le(R.f, W['earlier']))
            for n in st['names']: fr.loc[n] = R.value()
            for n in st['ks']: fr.loc[n] = t.mk('idx', k)
        else:
            for n in st['names']: fr.loc[n] = B.value()
        for m, v in st['flags'].items(): fr.loc[m] = (not v) if better else v
        # schedules evaluated before in this stage: one of them, any of them
        e = t.inp('earlier in the stage', ()); interp.path.append(le((R if better else B).f, e))
        W['earlier2'] = e
        W['ppc']['gen'] = SArray([W['ng'], fixaxis(NGC)], lambda g, c: t.inp('any2[%d]' % int(c), (g,)))
    lc = LoopContract(havoc, check, keep=FLAGNAMES); lc.first = False
    return lc

def args(verbose):
    def f(S):
        W.clear()
        nb, ng, nl = S.dim('nb', 1, 4), S.dim('ng', 1, 5), S.dim('nl', 1, 4); S.pre.extend(nonempty(nb, ng, nl))
        bus = bus_table(S, nb, ncols=NBC); gen = gen_table(S, ng, ncols=NGC, cols={GEN_STATUS: ('enum', (0, 1))}); br = branch_table(S, nl, ncols=21); base = S.scalar('baseMVA', 'p'); gc = S.table('gencost', ng, 7, {})
        opt = dict(ppoption(VERBOSE=verbose))
        W.update(nb=nb, ng=ng, nl=nl, bus0=snapshot(bus), gen0=snapshot(gen), branch0=br, base=base, gencost0=gc, opt=opt, rec={}, called=[], most=[], points=[], earlier=None)
        W['ppc'] = {'version': '2', 'baseMVA': base, 'bus': bus, 'gen': gen, 'branch': br, 'gencost': gc}
        return [t.inp('case', ()), opt]
    return f
def post(out, args_, snap, ghost, it):
    rec = W['rec'].get(out['raw']) if is_result(out) else None
    if rec is None: return [('one of the results is returned', lambda: False)]
    return [('the solution of the original schedule or a successful one', lambda a=(rec.ok or rec.tag in ('#0', '#B')): a)] + is_rec('returned', out, rec) + schedule('returned', rec.gen) + busdata('returned', rec.bus) + no_worse('returned', rec.f)
LOOPS = lambda: {('pypower.uopf', 'uopf'): {('while', 0): first_loop(), ('while', 1): outer_loop(), ('for', 0): inner_loop()}}
def make(v):
    return FunContract(uopf, None, {'any': args(v)}, post=post, loops=LOOPS(), name='uopf(VERBOSE=%d)' % v, max_paths=600, callees=stubs())
CONTRACTS = [make(0), make(1)]

# ---- opf itself: what its callees deliver, with everything out of service reported at zero -------------------
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.opf_setup import opf_setup
from pypower.opf_execute import opf_execute
from pypower.idx_brch import *
from .c07 import masked
OZ = [PG, QG, MU_PMAX, MU_PMIN]; BZ = [PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX]
O = {}
def o_args(widths):
    def f(S):
        O.clear(); nb, ng, nl = S.dim('nb', 1, 4), S.dim('ng', 1, 5), S.dim('nl', 1, 4); S.pre.extend(nonempty(nb, ng, nl))
        O.update(nb=nb, ng=ng, nl=nl, w=widths)
        O['bus'] = bus_table(S, nb, ncols=widths[0]); O['gen'] = gen_table(S, ng, ncols=widths[1]); O['br'] = branch_table(S, nl, ncols=widths[2])
        O['rg'] = S.table('rgen', ng, 25, {}); O['rl'] = S.table('rbranch', nl, 21, {}); O['rb'] = S.table('rbus', nb, 17, {})
        O['offg'] = masked(ng, lambda i: t.pred('offg', (i,)))[0]; O['offl'] = masked(nl, lambda i: t.pred('offl', (i,)))[0]
        O['ppc'] = {'version': '2', 'baseMVA': S.scalar('baseMVA', 'p'), 'bus': O['bus'], 'gen': O['gen'], 'branch': O['br'], 'gencost': S.table('gencost', ng, 7, {})}
        O['case'] = S.array('case', [nb]); O['opt'] = {'VERBOSE': 0}
        return [O['case'], O['opt']]
    return f
def so_args(interp, *a, **k): return O['ppc'], O['opt']
def so_e2i(interp, ppc, *a, **k):
    r = {'internal': True}; log(interp, 'ext2int', [{n: ppc[n] for n in ('bus', 'gen', 'branch')}], None); O['int'] = r; return r
def so_setup(interp, ppc, opt): ok = ppc is O['int'] and opt is O['opt']; O['om'] = {'om': 1}; interp.side.append(('the model is that of the case in internal numbering', lambda: ok)); return O['om']
def so_exec(interp, om, opt):
    ok = om is O['om'] and opt is O['opt']; interp.side.append(('the model is solved with the options given', lambda: ok))
    O['res'] = {'f': t.inp('f', ()), 'om': om}; O['ok'] = t.inp('success', ()); O['raw'] = {'x': 1}; return O['res'], O['ok'], O['raw']
def so_i2e(interp, res, *a, **k):
    ok = res is O['res']; interp.side.append(('the solution is put back in external numbering', lambda: ok))
    return {'f': res['f'], 'bus': O['rb'].copy(), 'gen': O['rg'].copy(), 'branch': O['rl'].copy(), 'order': {'gen': {'status': {'off': O['offg']}}, 'branch': {'status': {'off': O['offl']}}}}
def o_post(out, args_, snap, ghost, it):
    cl = [('its objective', lambda a=out['f'] is O['res']['f']: a), ('its success', lambda a=out['success'] is O['ok']: a), ('its raw output', lambda a=out['raw'] is O['raw'] or out['raw'] == O['raw']: a)]
    for k, n, z, cols, w, p in (('gen', 'ng', O['rg'], OZ, 25, 'offg'), ('branch', 'nl', O['rl'], BZ, 21, 'offl'), ('bus', 'nb', O['rb'], [], 17, None)):
        x = snapshot(out[k]); ax = O[n]
        cl.append((k + ': one row each', lambda x=x, ax=ax: A.match_axes(x.axes[0], ax) is None))
        for c in range(w):
            if c in cols: cl.append(('%s: column %d, zero out of service' % (k, c), Claim([ax], lambda i, x=x, z=z, c=c, p=p: x.num(i, c) - t.ite(t.pred(p, (i,)), t.ZERO, z.num(i, c)))))
            elif not (k == 'gen' and c in (MU_QMAX, MU_QMIN)): cl.append(('%s: column %d as solved' % (k, c), Claim([ax], lambda i, x=x, z=z, c=c: x.num(i, c) - z.num(i, c))))
    c = calls(ghost, 'ext2int'); cl.append(('one conversion', lambda: len(c) == 1))
    if len(c) == 1:
        for k, need_, w in (('bus', MU_VMIN + 1, O['w'][0]), ('gen', MU_QMIN + 1, O['w'][1]), ('branch', MU_ANGMAX + 1, O['w'][2])):
            x, z, n = c[0].args[0][k], snapshot({'bus': O['bus'], 'gen': O['gen'], 'branch': O['br']}[k]), O[{'bus': 'nb', 'gen': 'ng', 'branch': 'nl'}[k]]
            cl.append(('%s: room for the results' % k, lambda x=x, need_=need_, w=w, n=n: A.match_axes(x.axes[0], n) is None and A.match_axes(x.axes[1], fixaxis(max(need_, w))) is None))
            cl += [('%s: column %d handed on' % (k, j), Claim([n], lambda i, x=x, z=z, j=j: x.num(i, j) - z.num(i, j))) for j in range(w)]
    return cl
CONTRACTS += [FunContract(opf, None, {'any': o_args(w)}, post=o_post, name='opf(tables of %d, %d and %d columns)' % w, max_paths=200, callees=[stub(opf_args2, so_args), stub(ext2int, so_e2i), stub(opf_setup, so_setup), stub(opf_execute, so_exec), stub(int2ext, so_i2e)]) for w in ((13, 21, 13), (17, 25, 21), (15, 10, 17))]
LEMMAS = []

# ---- run time: the real heuristic on the contract of opf with arbitrary outcomes, and on the real opf ---------
def fake_opf(rng, trace, p_ok, degenerate):
    def f(ppc, opt=None):
        gen, bus = ppc['gen'].copy(), ppc['bus'].copy(); ng = len(gen); off = gen[:, GEN_STATUS] <= 0
        trace.append({'gen': gen.copy()})
        if gen.shape[1] < 25: gen = np.c_[gen, np.zeros((ng, 25 - gen.shape[1]))]
        gen[:, PG] = rng.uniform(0, 100, ng) if True else 0; gen[:, QG] = rng.uniform(-50, 50, ng)
        gen[:, MU_PMIN] = np.where(rng.random(ng) < .6, rng.uniform(0.1, 5, ng), 0)
        gen[off[:, None] & np.isin(np.arange(25), [PG, QG, MU_PMAX, MU_PMIN])[None, :]] = 0
        bus[:, VM] = rng.uniform(.9, 1.1, len(bus))
        f_ = float(rng.randint(1, 6)) if degenerate else rng.uniform(10, 100) * (0.9 ** off.sum())
        r = dict(ppc); r.update(gen=gen, bus=bus, branch=ppc['branch'].copy(), f=f_, success=bool(rng.random() < p_ok), raw={'call': len(trace) - 1}, et=0.0)
        trace[-1].update(f=r['f'], ok=r['success'], out=copy.deepcopy(r)); return r
    return f
def judge(r, trace, case):
    g0, g = case['gen'], r['gen']
    good = [c['f'] for c in trace if c['ok']]
    for f in good: need(r['f'] <= f, 'the returned schedule costs no more than one evaluated successfully', returned=r['f'], other=f)
    if trace: need(r['success'] or r['f'] == trace[0]['f'], 'the solution of the original schedule or one that was solved', returned=r['f'], first=trace[0]['f'])
    def legal(x, outputs, what):
        for i in range(len(g0)):
            if x[i, GEN_STATUS] == g0[i, GEN_STATUS]: continue
            need(x[i, GEN_STATUS] == 0 and g0[i, GEN_STATUS] > 0 and g0[i, PMIN] > 0, '%s: only units in service with a positive minimum output are shut down' % what, unit=i, status=float(x[i, GEN_STATUS]), was=float(g0[i, GEN_STATUS]), pmin=float(g0[i, PMIN]))
            if outputs: need(x[i, PG] == 0 and x[i, QG] == 0, '%s: a unit shut down is at zero output' % what, unit=i)
        keep = [c for c in range(min(g0.shape[1], 21)) if c not in (PG, QG, VG, GEN_STATUS)]
        need(np.array_equal(x[:, keep], g0[:, keep]), '%s: generator data as given' % what)
    legal(g, True, 'returned')
    for c in trace: legal(c['gen'], False, 'evaluated')
    if trace:
        k = r['raw']['call'] if isinstance(r.get('raw'), dict) and 'call' in r['raw'] else None
        if k is not None:
            o = trace[k]['out']; need(r['f'] == o['f'] and r['success'] == o['success'] and np.array_equal(r['gen'], o['gen']) and np.array_equal(r['bus'], o['bus']), 'the returned result is one of the results obtained', call=k)
def run_quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a)
def rt_heuristic(rng, k):
    case = G.external_case(rng, isolated=False); ng = len(case['gen'])
    case['gencost'] = np.array([[2, 0, 0, 3, rng.uniform(0, .1), rng.uniform(5, 40), rng.uniform(0, 500)] for _ in range(ng)])
    g = case['gen']; g[:, PMIN] = rng.choice([0.0, 10.0, 60.0, -20.0], ng); g[:, PMAX] = np.maximum(g[:, PMIN], 0) + rng.choice([50.0, 100.0], ng)
    lod = rng.random(ng) < .2; g[lod, PMIN] = -30; g[lod, PMAX] = 0; g[:, GEN_STATUS] = rng.random(ng) < .85
    if rng.random() < .3: case['bus'][:, PD] *= .2
    trace = []; old = UO.opf; UO.opf = fake_opf(rng, trace, [1.0, .7, .3, 0.0][k % 4], k % 3 == 0)
    before = copy.deepcopy(case)
    try: r = run_quiet(uopf, copy.deepcopy(case), ppoption(VERBOSE=k % 2, OUT_ALL=0))
    finally: UO.opf = old
    judge(r, trace, before)
def rt_real(rng, k):
    case = G.shipped('case9'); g = case['gen']; case['gen'] = g
    g[:, PMIN] = rng.choice([10.0, 60.0, 90.0, 140.0], 3); g[:, PMAX] = 300; case['bus'][:, PD] *= rng.uniform(.4, 1.0)
    if k % 3 == 2: g[int(rng.randint(1, 3)), GEN_STATUS] = 0
    trace = []; real = UO.opf
    def spy(ppc, opt=None):
        c = {'gen': ppc['gen'].copy()}; trace.append(c); r = real(ppc, opt); c.update(f=r['f'], ok=bool(r['success'])); return r
    before = copy.deepcopy(case); UO.opf = spy
    try: r = run_quiet(uopf, copy.deepcopy(case), ppoption(VERBOSE=0, OUT_ALL=0))
    finally: UO.opf = real
    judge(r, trace, before)
    if r['success']: need(r['gen'][:, PG].sum() > 0, 'some unit produces')
def rt_fairmax(rng, k):
    n = int(rng.randint(1, 8)); x = rng.randint(0, 3, n).astype(float) if k % 2 else rng.uniform(-1, 1, n)
    import random as R_; R_.seed(int(rng.randint(0, 10 ** 9)))
    v, i = fairmax(x.copy())
    need(v == x.max() and 0 <= int(i) < n and x[int(i)] == x.max(), 'the largest entry and one of its positions', x=x.tolist(), value=float(v), index=int(i))
RUNTIME = [RT('the heuristic on arbitrary outcomes of the opf', rt_heuristic, 200, 5000, ['uopf'], 'networks up to 9 buses'),
           RT('the heuristic on the real opf', rt_real, 4, 60, ['uopf', 'opf'], 'variations of a 9-bus case'),
           RT('breaking ties', rt_fairmax, 400, 5000, ['fairmax'], 'vectors up to 7 entries')]
LEVEL = 'proof'
ASSUMPTIONS = ['opf by contract: its result keeps the generator and bus data and the order of the rows, and reports units out of service at zero output without multiplier; the wrapper opf is under contract itself (results of out-of-service units and branches zeroed, success, objective and raw output handed on, room for results), its callees by C13, C22 and C28',
               'unit status flags are 0 or 1', 'fairmax by contract (one of the positions of the largest entry); its body, which draws at random, is evaluated on the real code for short vectors (labelled bounded, not counted as proved)', 'totcost: any costs whatever', 'costs are exact numbers (no NaN)', 'termination of the search is not claimed']
EXPLANATION = 'uopf under contract with invariants on its three loops (fitting the load, stages, candidates of a stage) over arbitrary outcomes of every opf: each case handed to the opf and each result kept is the original table with only qualifying units shut down and everything else as given; the result kept is, in all its fields, one of the results obtained, and costs no more than any schedule solved successfully so far, in this stage or any earlier one; opf under contract for its wrapper duties'
FILES = ['uopf', 'fairmax', 'opf']
