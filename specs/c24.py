from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from pv import terms as t, arrays as A, solve
from pv.arrays import SArray, Size, dimaxis, fixaxis
from .net import *
from . import gen as G
from .gen import need, needclose
import numpy as np
from pypower.total_load import total_load
from pypower.scale_load import scale_load, ScalingError
from pypower.isload import isload

NUM = 'extnum24'        # external bus numbers 0 .. largest bus number
def busnum(S): return ext_busnum(S, 'busnum24', NUM, 'perm24')
def zone_col(S, name):
    """0 (no zone) or a zone number 1 .. nz; the last zone is used"""
    S.dim('nz', 1, 3)
    t.FACTS.tight.add(name + '.z')
    S.ifs[name + '.z'] = ('nz', lambda rng, env, i: env.sizes['nz'] - 1 if i == 0 else rng.randrange(env.sizes['nz']))
    S.samplers[name + '.in'] = ('e(1,0)', lambda rng, env, i: 1.0 if i == 0 else float(rng.random() < .8))
    return lambda i: t.mul(t.inp(name + '.in', (i,), 'e(1,0)'), t.mk('idx', A.shift(t.ifun(name + '.z', (i,), 'nz'), 1)))
def in_zone(name, i, k): return t.inp(name + '.in', (i,), 'e(1,0)') * t.br(t.eqi(t.ifun(name + '.z', (i,), 'nz'), k))
W = {}
def network(S):
    nb, ng = S.dim('nb', 1, 4), S.dim('ng', 1, 4)
    W['nb'], W['ng'], W['nz'] = nb, ng, S.dim('nz', 1, 3)
    num = busnum(S)
    bus = S.table('bus', nb, 13, {0: num, 1: ('enum', (1, 2, 3, 4)), BUS_AREA: zone_col(S, 'area'), PD: ('r', zs()), QD: ('r', zs())})
    S.ifs['gbus'] = ('nb', None)
    z = lambda lo, hi: ('r', lambda rng, env, *i: 0.0 if rng.random() < .5 else rng.uniform(lo, hi))
    gen = S.table('gen', ng, 21, {0: lambda g: num(t.ifun('gbus', (g,), 'nb')), GEN_STATUS: ('enum', (0, 1, -1)), PMAX: z(.5, 2), PMIN: z(-3, 1), QMIN: z(-2, 1), QMAX: z(-1, 2)})
    return bus, gen
def isld(gen, g): return t.br(gen.num(g, GEN_STATUS) > 0) * t.br(gen.num(g, PMIN) < 0) * t.br(t.cmp_eq(gen.num(g, PMAX), t.ZERO))
def qnom(gen, g):
    return t.br(t.cmp_eq(gen.num(g, QMIN), t.ZERO)) * gen.num(g, QMAX) + t.br(t.cmp_eq(gen.num(g, QMAX), t.ZERO)) * gen.num(g, QMIN)
def at(g, i): return t.br(t.eqi(t.ifun('gbus', (g,), 'nb'), i))
def tl_args(zone, which, withgen):
    def f(S):
        bus, gen = network(S)
        nz = W['nz']
        S.pre.append(A.any_over(W['nb'], lambda i: t.TRUE))
        if withgen: S.pre.append(A.any_over(W['ng'], lambda i: t.TRUE))
        lz = None
        if zone == 'all': lz = 'all'
        if zone == 'given': lz = SArray([W['nb']], zone_col(S, 'lz'), 'i')
        return [bus, gen if withgen else None, lz, which]
    return f
def tl_spec(zone, which, withgen):
    def spec(bus, gen=None, load_zone=None, which_type=None):
        fix = which != 'DISPATCHABLE' or not withgen; disp = withgen and which != 'FIXED'
        def tot(c, d):
            def f(k):
                s = lambda i: (t.ONE if zone == 'all' else in_zone('lz' if zone == 'given' else 'area', i, k))
                r = t.ZERO
                if fix: r = r + A.sum_over(W['nb'], lambda i: s(i) * bus.num(i, c))
                if disp: r = r + A.sum_over(W['nb'], lambda i: s(i) * A.sum_over(W['ng'], lambda g: at(g, i) * isld(gen, g) * d(g)))
                return r
            return f
        ax = fixaxis(1) if zone == 'all' else W['nz']
        return SArray([ax], tot(PD, lambda g: t.mul(-1, gen.num(g, PMIN))), 'f'), SArray([ax], tot(QD, lambda g: t.mul(-1, qnom(gen, g))), 'f')
    return spec
CONTRACTS = []
for zone in ('areas', 'given', 'all'):
    for which in (None, 'FIXED', 'DISPATCHABLE', 'BOTH'):
        for wg in (True, False):
            CONTRACTS.append(FunContract(total_load, tl_spec(zone, which, wg), {'any': tl_args(zone, which, wg)}, name='total_load(%s,%s,%s)' % (zone, which, 'gen' if wg else 'no gen')))
def sl_args(zone, kind, which, pq, withgen):
    def f(S):
        bus, gen = network(S)
        nz = W['nz']
        S.pre.append(A.any_over(W['nb'], lambda i: t.TRUE))
        if withgen: S.pre.append(A.any_over(W['ng'], lambda i: t.TRUE))
        if zone == 'areas':
            c = Size([nz]) == 1
            S.pre.append(t.mknot(c)); S.dims['nz'] = (2, 3)
        lz = SArray([W['nb']], zone_col(S, 'lz'), 'i') if zone == 'given' else None
        load = S.array('load', [fixaxis(1) if zone == 'single' else nz])
        opt = {}
        if which: opt['which'] = which
        if pq: opt['pq'] = pq
        if kind: opt['scale'] = kind
        W['snap'] = (snapshot(bus), snapshot(gen) if withgen else None, snapshot(load))
        return [load, bus, gen if withgen else None, lz, opt if opt else None]
    return f
def ind(zone, bus, gen):
    """indicator of zone k at bus i"""
    def f(i, k):
        if zone == 'given': return in_zone('lz', i, k)
        if zone == 'areas': return in_zone('area', i, k)
        c = t.mkor(t.mknot(t.cmp_eq(bus.num(i, PD), t.ZERO)), t.mknot(t.cmp_eq(bus.num(i, QD), t.ZERO)))
        if gen is not None: c = t.mkor(c, A.any_over(W['ng'], lambda g: t.mkand(t.ascond(at(g, i)), t.ascond(isld(gen, g)))))
        return t.br(c)
    return f
def sl_post(zone, kind, which, pq, withgen):
    fix = which != 'DISPATCHABLE' or not withgen; disp = withgen and which != 'FIXED'
    def post(out, args, snap, ghost, it):
        load, bus, gen, lz, opt = snap
        if not (isinstance(out, tuple) and len(out) == 2): return [('returns bus and gen', lambda: False)]
        nb, ng, nz = W['nb'], W['ng'], load.axes[0]
        Z = ind(zone, bus, gen)
        B = snapshot(out[0]); Gn = snapshot(out[1]) if withgen else None
        fixed = lambda k: A.sum_over(nb, lambda i: Z(i, k) * bus.num(i, PD))
        dsp = lambda k: A.sum_over(nb, lambda i: Z(i, k) * A.sum_over(ng, lambda g: at(g, i) * isld(gen, g) * t.mul(-1, gen.num(g, PMIN)))) if withgen else t.ZERO
        def R(k):
            L = load.num(k)
            if kind != 'QUANTITY': return L
            num, den = (L, fixed(k) + dsp(k)) if fix and disp else (L - dsp(k), fixed(k)) if fix else (L - fixed(k), dsp(k))
            return t.ite(t.mknot(t.cmp_eq(den, t.ZERO)), num * t.power(den, -1), t.ONE)
        cl = [('bus table shape', lambda: B.ndim == 2 and B.axes[0].same(nb) and B.axes[1].isfix(13))]
        if withgen: cl.append(('gen table shape', lambda: Gn.ndim == 2 and Gn.axes[0].same(ng) and Gn.axes[1].isfix(21)))
        fcols = ((PD,) if pq == 'P' else (PD, QD)) if fix else ()
        gcols = ((PG, PMIN) if pq == 'P' else (PG, PMIN, QG, QMIN, QMAX)) if disp else ()
        scaled = lambda i, f: f * (1 + A.sum_over(nz, lambda k: Z(i, k) * (R(k) - 1)))
        for c in range(13):
            if c in fcols: cl.append(('bus column %d scaled in its zone' % c, Claim([nb], lambda i, c=c: B.num(i, c) - scaled(i, bus.num(i, c)))))
            else: cl.append(('bus column %d kept' % c, Claim([nb], lambda i, c=c: B.num(i, c) - bus.num(i, c))))
        for c in range(21 if withgen else 0):
            if c in gcols: cl.append(('gen column %d scaled for the dispatchable loads of the zone' % c, Claim([ng], lambda g, c=c: Gn.num(g, c) - gen.num(g, c) * (1 + isld(gen, g) * A.sum_over(nz, lambda k: Z(t.ifun('gbus', (g,), 'nb'), k) * (R(k) - 1))))))
            else: cl.append(('gen column %d kept' % c, Claim([ng], lambda g, c=c: Gn.num(g, c) - gen.num(g, c))))
        if kind == 'QUANTITY':
            # the scaled kind of load times its factor, plus the other kind, is the target wherever no error is raised
            cl.append(('targets are hit', Claim([nz], lambda k: (fixed(k) * (R(k) if fix else 1) + dsp(k) * (R(k) if disp else 1)) - load.num(k))))
        return cl
    return post
def sl_raise(zone, kind, which, pq, withgen):
    fix = which != 'DISPATCHABLE' or not withgen; disp = withgen and which != 'FIXED'
    def f(e, path):
        if kind != 'QUANTITY' or not isinstance(e, ScalingError): return False
        # only if some zone has none of the load to be scaled and its target is not what is there already
        bus, gen, load = W['snap']; nb, ng = W['nb'], W['ng']
        Z = ind(zone, bus, gen)
        fixed = lambda k: A.sum_over(nb, lambda i: Z(i, k) * bus.num(i, PD))
        dsp = lambda k: A.sum_over(nb, lambda i: Z(i, k) * A.sum_over(ng, lambda g: at(g, i) * isld(gen, g) * t.mul(-1, gen.num(g, PMIN)))) if withgen else t.ZERO
        have = (lambda k: fixed(k) + dsp(k)) if fix and disp else fixed if fix else dsp
        want = (lambda k: fixed(k) + dsp(k)) if fix and disp else dsp if fix else fixed      # what there is in total when there is none of it
        imp = A.any_over(load.axes[0], lambda k: t.mkand(t.cmp_eq(have(k), t.ZERO), t.mknot(t.cmp_eq(load.num(k), want(k)))))
        return solve.valid(path, imp)
    return f
SL = [(z, k, w, pq, wg) for z in ('single', 'areas', 'given') for k in (None, 'QUANTITY') for w in (None, 'FIXED', 'DISPATCHABLE', 'BOTH') for pq in (None, 'P') for wg in (True, False)
      if not (not wg and w in ('DISPATCHABLE', 'BOTH')) and not (pq == 'P' and w is None)]
CONTRACTS += [FunContract(scale_load, None, {'any': sl_args(*c)}, post=sl_post(*c), may_raise=sl_raise(*c), name='scale_load(%s)' % ','.join(map(str, c))) for c in SL]
LEMMAS = []
def rand_net(rng):
    nb, ng, nz = rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 4)
    bus = np.zeros((nb, 13)); bus[:, 0] = rng.permutation(40)[:nb] + (rng.rand() < .8); bus[:, 1] = rng.randint(1, 5, nb)
    bus[:, PD] = rng.uniform(-10, 90, nb) * (rng.rand(nb) < .7); bus[:, QD] = rng.uniform(-10, 40, nb) * (rng.rand(nb) < .7)
    bus[:, 4:] = rng.rand(nb, 9); bus[:, BUS_AREA] = rng.randint(rng.randint(0, 2), nz + 1, nb)
    gen = rng.uniform(-50, 50, (ng, 21)); gen[:, 0] = rng.choice(bus[:, 0], ng); gen[:, GEN_STATUS] = rng.choice([1, 1, 0, -1], ng)
    ld = rng.rand(ng) < .6; gen[:, PMAX] = np.where(ld, 0, gen[:, PMAX]); gen[:, PMIN] = np.where(ld, -abs(gen[:, PMIN]), gen[:, PMIN])
    side = rng.rand(ng) < .5; gen[:, QMIN] = np.where(side, 0, gen[:, QMIN]); gen[:, QMAX] = np.where(side, gen[:, QMAX], 0); gen[:, PG] = gen[:, PMIN] * rng.rand(ng)
    return bus, gen, nz
def oracle_load(bus, gen, zone, n, kind):
    P, Q = np.zeros(n), np.zeros(n); row = {int(b): i for i, b in enumerate(bus[:, 0])}
    if kind != 'DISPATCHABLE':
        for i in range(len(bus)):
            if 0 < zone[i] <= n: P[int(zone[i]) - 1] += bus[i, PD]; Q[int(zone[i]) - 1] += bus[i, QD]
    if kind != 'FIXED' and gen is not None:
        for g in gen:
            z = int(zone[row[int(g[0])]])
            if g[GEN_STATUS] > 0 and g[PMIN] < 0 and g[PMAX] == 0 and 0 < z <= n:
                P[z - 1] -= g[PMIN]; Q[z - 1] -= (g[QMAX] if g[QMIN] == 0 else 0) + (g[QMIN] if g[QMAX] == 0 else 0)
    return P, Q
def rt_total(rng, k):
    bus, gen, nz = rand_net(rng); wg = rng.rand() < .8; kind = rng.choice(['FIXED', 'DISPATCHABLE', 'BOTH', None])
    zk = rng.choice(['areas', 'given', 'all'])
    if zk == 'areas':
        lz, zone = None, bus[:, BUS_AREA]
        if max(zone) < 1: raise Skip()
    elif zk == 'all': lz, zone = 'all', np.ones(len(bus))
    else:
        lz = rng.randint(0, nz + 1, len(bus)); lz[0] = nz; zone = lz
    b0, g0, z0 = bus.copy(), gen.copy(), np.array(zone)
    P, Q = total_load(bus, gen if wg else None, lz, kind)
    need((b0 == bus).all() and (g0 == gen).all() and (z0 == zone).all(), 'total_load changed its inputs')
    n = int(max(zone)); eff = 'FIXED' if not wg else kind or 'BOTH'
    eP, eQ = oracle_load(bus, gen, zone, n, eff)
    need(np.shape(P) == (n,) and np.shape(Q) == (n,), 'one total per zone', got=np.shape(P))
    needclose(P, eP, 'real load totals'); needclose(Q, eQ, 'reactive load totals')
    # the two kinds add up to the total
    if wg:
        for c, x in ((0, P), (1, Q)):
            needclose(total_load(bus, gen, lz, 'FIXED')[c] + total_load(bus, gen, lz, 'DISPATCHABLE')[c], total_load(bus, gen, lz, 'BOTH')[c], 'fixed and dispatchable load add up')
    return 1
def rt_scale(rng, k):
    bus, gen, nz = rand_net(rng); wg = rng.rand() < .8; kind = rng.choice(['FIXED', 'DISPATCHABLE', 'BOTH']) if wg else 'FIXED'
    qty = rng.rand() < .5; pq = rng.choice(['P', 'PQ']); zk = rng.choice(['single', 'areas', 'given'])
    lz = None
    if zk == 'single':
        n = 1; zone = ((bus[:, PD] != 0) | (bus[:, QD] != 0)).astype(int); row = {int(b): i for i, b in enumerate(bus[:, 0])}
        if wg:
            for g in gen:
                if g[GEN_STATUS] > 0 and g[PMIN] < 0 and g[PMAX] == 0: zone[row[int(g[0])]] = 1
    elif zk == 'areas':
        n = max(2, int(max(bus[:, BUS_AREA]))); zone = bus[:, BUS_AREA].copy()
    else:
        n = nz; lz = rng.randint(0, nz + 1, len(bus)); lz[0] = nz; zone = lz
    load = rng.uniform(-1, 3, n) * (50 if qty else 1)
    if rng.rand() < .3: load = np.round(load).astype(int)
    if rng.rand() < .2: load = list(load)
    opt = {'which': kind, 'pq': pq, 'scale': 'QUANTITY' if qty else 'FACTOR'}
    if kind == 'BOTH' and rng.rand() < .3: del opt['which']
    if pq == 'PQ' and rng.rand() < .3: del opt['pq']
    if not qty and rng.rand() < .3: del opt['scale']
    if not wg and rng.rand() < .5: opt.pop('which', None)
    snap = (bus.copy(), gen.copy(), np.array(load), dict(opt), None if lz is None else lz.copy())
    fP = oracle_load(bus, gen if wg else None, zone, n, 'FIXED')[0]; dP = oracle_load(bus, gen if wg else None, zone, n, 'DISPATCHABLE')[0] if wg else np.zeros(n)
    sel, oth = (fP + dP, 0 * fP) if kind == 'BOTH' else (fP, dP) if kind == 'FIXED' else (dP, fP)
    bad = qty and any(sel[z] == 0 and load[z] != oth[z] for z in range(n))
    if qty and any(0 < abs(sel[z]) < 1e-3 for z in range(n)): raise Skip()
    try: B, Gn = scale_load(load, bus, gen if wg else None, lz, opt)
    except ScalingError:
        need(bad, 'ScalingError although every target can be reached'); return 1
    need(not bad, 'no ScalingError although a target cannot be reached')
    need((snap[0] == bus).all() and (snap[1] == gen).all() and (snap[2] == np.array(load)).all() and snap[3] == opt and (lz is None or (lz == snap[4]).all()), 'scale_load changed its inputs')
    r = [((load[z] - oth[z]) / sel[z] if sel[z] != 0 else 1) if qty else load[z] for z in range(n)]
    f = np.array([r[int(z) - 1] if 0 < z <= n else 1 for z in zone]); row = {int(b): i for i, b in enumerate(bus[:, 0])}
    eB = bus.copy()
    if kind != 'DISPATCHABLE':
        for c in ((PD,) if pq == 'P' else (PD, QD)): eB[:, c] *= f
    needclose(B, eB, 'scaled bus table')
    if wg:
        eG = gen.copy()
        if kind != 'FIXED':
            for g in range(len(gen)):
                if gen[g, GEN_STATUS] > 0 and gen[g, PMIN] < 0 and gen[g, PMAX] == 0:
                    for c in ((PG, PMIN) if pq == 'P' else (PG, PMIN, QG, QMIN, QMAX)): eG[g, c] *= f[row[int(gen[g, 0])]]
        needclose(Gn, eG, 'scaled generator table')
    if qty and all(x >= 0 for x in r): needclose(oracle_load(B, Gn if wg else None, zone, n, 'BOTH' if wg else 'FIXED')[0], np.array(load, float), 'targets are hit', 1e-6)
    return 1
RUNTIME = [RT('totals on random tables', rt_total, 150, 3000, ['total_load', 'isload'], 'up to 9 buses and generators'), RT('scaling on random tables', rt_scale, 250, 5000, ['scale_load', 'isload'], 'up to 9 buses and generators')]
ASSUMPTIONS = ['bus numbers are distinct and nonnegative, every generator names an existing bus, the bus table is not empty, zone numbers are integers 0 .. number of zones', 'bus numbers are modelled as an injective index function onto 0 .. largest number; lookup tables have that length',
               'arithmetic is over the reals (a zero total is decided exactly)']
EXPLANATION = 'zone totals equal the sums of the definitions; each selected load is multiplied by its zone factor and nothing else changes; with target quantities the new zone totals equal the targets, and ScalingError is raised only when a zone has nothing to scale and misses its target'
LEVEL = 'proof'
