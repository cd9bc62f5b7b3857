"""Random valid power-system cases (preconditions of the run-time contract evaluation)."""
import numpy as np
from pypower.idx_bus import *
from pypower.idx_gen import *
from pypower.idx_brch import *
from pypower.idx_cost import *

def mags(rng, n, lo=0.85, hi=1.15):
    """positive magnitudes, now and then far from one"""
    v = rng.uniform(lo, hi, n)
    if rng.rand() < .4: v = np.where(rng.rand(n) < .4, 10 ** rng.uniform(-2.5, .7, n), v)
    return v
def widen(rng, c):
    """unusual but valid parameter values"""
    bus, gen, br = c['bus'], c['gen'], c['branch']; nb, nl, ng = len(bus), len(br), len(gen)
    pick = lambda n, p=.25: rng.rand(n) < p
    def put(M, col, n, val, p=.25):
        k = pick(n, p); M[k, col] = val[k]
    put(br, BR_R, nl, rng.choice([0., -.02, 1.5, 1e-4], nl)); put(br, BR_X, nl, rng.choice([-.3, 4., 1e-3, -5e-3], nl)); put(br, BR_B, nl, rng.choice([3., -.5, 1e-3], nl))
    put(br, TAP, nl, rng.choice([.2, 3., .5, 1.5, -1.], nl)); put(br, SHIFT, nl, rng.choice([180., -150., 30., 400.], nl)); put(br, RATE_A, nl, rng.choice([0., 1e10, 1e-2], nl))
    put(bus, PD, nb, rng.choice([-200., 5e3, 1e-3], nb)); put(bus, QD, nb, rng.choice([-900., 2e3], nb)); put(bus, GS, nb, rng.choice([300., -40.], nb)); put(bus, BS, nb, rng.choice([-900., 400.], nb))
    put(gen, PG, ng, rng.choice([-300., 4e3, 0.], ng)); put(gen, QG, ng, rng.choice([-700., 900., 0.], ng))
    c['baseMVA'] = float(rng.choice([1., 1000., c['baseMVA']]))
    return c
def wide_case(rng, **k):
    c = internal_case(rng, **k)
    return widen(rng, c) if rng.rand() < .5 else c
def internal_case(rng, nb=None, connected=True, offs=True, gencols=21, brcols=13, shifts=True, nref=1, loads=True, easy=True, multi_gen=True):
    """consecutively numbered network: bus i has number i; all statuses arbitrary unless offs is False"""
    nb = nb or rng.randint(2, 9)
    bus = np.zeros((nb, 13))
    bus[:, BUS_I] = np.arange(nb)
    bus[:, BUS_TYPE] = PQ
    bus[:, PD] = rng.uniform(0, 60, nb) * (rng.rand(nb) < 0.8)
    bus[:, QD] = rng.uniform(-10, 30, nb) * (rng.rand(nb) < 0.8)
    bus[:, GS] = rng.uniform(-2, 4, nb) * (rng.rand(nb) < 0.4)
    bus[:, BS] = rng.uniform(-10, 20, nb) * (rng.rand(nb) < 0.4)
    bus[:, BUS_AREA] = rng.randint(1, 3, nb)
    bus[:, VM] = rng.uniform(0.95, 1.05, nb)
    bus[:, VA] = rng.uniform(-10, 10, nb)
    bus[:, BASE_KV] = 135; bus[:, ZONE] = rng.randint(1, 3, nb)
    bus[:, VMAX] = 1.1; bus[:, VMIN] = 0.9
    # branches: spanning tree plus extra
    ends = [(rng.randint(0, i), i) for i in range(1, nb)] if connected else []
    for _ in range(rng.randint(0 if connected else 1, nb + 1)):
        a, b = rng.randint(0, nb, 2)
        if a != b: ends.append((a, b))
    if not ends: ends = [(0, 1)]
    ntree = nb - 1 if connected else 0
    nl = len(ends)
    branch = np.zeros((nl, brcols))
    for l, (a, b) in enumerate(ends):
        if rng.rand() < 0.5: a, b = b, a
        branch[l, F_BUS] = a; branch[l, T_BUS] = b
    branch[:, BR_R] = rng.uniform(0.005, 0.05, nl)
    branch[:, BR_X] = rng.uniform(0.05, 0.25, nl)
    branch[:, BR_B] = rng.uniform(0, 0.08, nl) * (rng.rand(nl) < 0.7)
    branch[:, RATE_A] = rng.uniform(80, 300, nl) * (rng.rand(nl) < 0.7)
    branch[:, RATE_B] = branch[:, RATE_A]; branch[:, RATE_C] = branch[:, RATE_A]
    branch[:, TAP] = rng.uniform(0.93, 1.07, nl) * (rng.rand(nl) < 0.4)
    if shifts: branch[:, SHIFT] = rng.uniform(-8, 8, nl) * (rng.rand(nl) < 0.35)
    branch[:, BR_STATUS] = 1
    if offs:
        off = (rng.rand(nl) < 0.25)
        off[:ntree] = False
        branch[off, BR_STATUS] = 0
    branch[:, ANGMIN] = -360; branch[:, ANGMAX] = 360
    # generators
    ng = rng.randint(1, max(2, nb // 2 + 2))
    gb = list(rng.randint(0, nb, ng)) if multi_gen else list(rng.permutation(nb)[:min(ng, nb)])
    ng = len(gb)
    gen = np.zeros((ng, gencols))
    gen[:, GEN_BUS] = gb
    gen[:, PG] = rng.uniform(0, 80, ng)
    gen[:, QG] = rng.uniform(-20, 30, ng)
    gen[:, QMAX] = rng.uniform(20, 100, ng); gen[:, QMIN] = -rng.uniform(5, 80, ng)
    vset = rng.uniform(0.97, 1.04, nb)
    gen[:, VG] = vset[np.array(gb)]
    gen[:, MBASE] = 100
    gen[:, GEN_STATUS] = 1
    if offs and ng > 1: gen[rng.rand(ng) < 0.25, GEN_STATUS] = 0
    if offs and ng > 1 and rng.rand() < .15: gen[rng.randint(ng), GEN_STATUS] = -1
    if not (gen[:, GEN_STATUS] > 0).any(): gen[0, GEN_STATUS] = 1
    gen[:, PMAX] = gen[:, PG] + rng.uniform(20, 120, ng); gen[:, PMIN] = np.maximum(0, gen[:, PG] - rng.uniform(0, 60, ng))
    on = gen[:, GEN_STATUS] > 0
    bus[gen[on, GEN_BUS].astype(int), BUS_TYPE] = PV
    r = gen[on, GEN_BUS].astype(int)[0]
    bus[r, BUS_TYPE] = REF
    return {'version': '2', 'baseMVA': float(rng.choice([100.0, 50.0, 10.0 * rng.uniform(5, 12)])), 'bus': bus, 'gen': gen, 'branch': branch}

def gencost_for(rng, ng, kinds=('poly', 'pwl'), q=False, npts=None):
    rows = []
    n = 2 * ng if q else ng
    specs = []
    for i in range(n):
        k = kinds[rng.randint(len(kinds))]
        if k == 'poly':
            nc = rng.randint(1, 5)
            c = rng.uniform(-1, 3, nc) * np.array([10.0 ** (-2 * (nc - 1 - j)) for j in range(nc)])
            specs.append((POLYNOMIAL, nc, list(c)))
        elif k == 'quad':
            specs.append((POLYNOMIAL, 3, [rng.uniform(0.005, 0.08), rng.uniform(5, 40), rng.uniform(0, 100)]))
        else:
            m = rng.randint(2, 5)
            x = np.cumsum(rng.uniform(5, 40, m)) - rng.uniform(0, 30)
            s = np.sort(rng.uniform(5, 40, m - 1))
            y = [rng.uniform(0, 200)]
            for a in range(m - 1): y.append(y[-1] + s[a] * (x[a + 1] - x[a]))
            specs.append((PW_LINEAR, m, [v for p in zip(x, y) for v in p]))
    w = max(len(s[2]) for s in specs)
    gc = np.zeros((n, 4 + w))
    for i, (m, nc, c) in enumerate(specs):
        gc[i, MODEL] = m; gc[i, STARTUP] = rng.choice([0, 100.0]); gc[i, SHUTDOWN] = rng.choice([0, 50.0]); gc[i, NCOST] = nc
        gc[i, COST:COST + len(c)] = c
    return gc

def external_case(rng, isolated=True, **k):
    """arbitrary bus numbers, possibly isolated buses and unordered rows"""
    c = internal_case(rng, **k)
    nb = c['bus'].shape[0]
    nums = rng.choice(np.arange(1, 40 * nb), nb, replace=False)
    bus, gen, branch = c['bus'], c['gen'], c['branch']
    if isolated and nb > 2 and rng.rand() < 0.6:
        # isolate a bus that carries no in-service generator and is a leaf
        deg = np.zeros(nb)
        for l in range(branch.shape[0]):
            deg[int(branch[l, F_BUS])] += 1; deg[int(branch[l, T_BUS])] += 1
        cand = [i for i in range(nb) if deg[i] == 1 and bus[i, BUS_TYPE] == PQ]
        if cand: bus[cand[rng.randint(len(cand))], BUS_TYPE] = NONE
    perm = rng.permutation(nb)
    bus[:, BUS_I] = nums
    for col in (F_BUS, T_BUS): branch[:, col] = nums[branch[:, col].astype(int)]
    gen[:, GEN_BUS] = nums[gen[:, GEN_BUS].astype(int)]
    c['bus'] = bus[perm]
    c['branch'] = branch[rng.permutation(branch.shape[0])]
    c['gen'] = gen[rng.permutation(gen.shape[0])]
    return c

SHIPPED = ['case4gs', 'case6ww', 'case9', 'case14', 'case24_ieee_rts', 'case30', 'case30Q', 'case30pwl', 'case39', 'case57', 'case118']
def shipped(name):
    import importlib
    return getattr(importlib.import_module('pypower.' + name), name)()

def polarV(rng, nb, lo=0.85, hi=1.15, ang=0.6):
    return mags(rng, nb, lo, hi) * np.exp(1j * rng.uniform(-ang, ang, nb))

# ---- independent network model (plain loops over branches) ---------------------------
def branch_currents(br, Vf, Vt):
    """currents into the branch at its two ends: pi model behind an ideal transformer at the from end"""
    if br[BR_STATUS] <= 0: return 0j, 0j
    z = complex(br[BR_R], br[BR_X])
    a = br[TAP] if br[TAP] != 0 else 1.0
    sh = np.deg2rad(br[SHIFT])
    tau = complex(a * np.cos(sh), a * np.sin(sh))
    Vp = Vf / tau                       # voltage behind the ideal transformer
    yb = 1j * br[BR_B] / 2
    I_series = (Vp - Vt) / z
    Ip = I_series + yb * Vp
    return Ip / np.conj(tau), -I_series + yb * Vt

def injections(case, V):
    """complex power leaving each bus into the network, per unit"""
    bus, br = case['bus'], case['branch']
    S = np.array([V[i] * np.conj(complex(bus[i, GS], bus[i, BS]) / case['baseMVA'] * V[i]) for i in range(len(V))], dtype=complex)
    for l in range(br.shape[0]):
        f, t = int(br[l, F_BUS]), int(br[l, T_BUS])
        If, It = branch_currents(br[l], V[f], V[t])
        S[f] += V[f] * np.conj(If); S[t] += V[t] * np.conj(It)
    return S
def flows(case, V):
    br = case['branch']
    Sf = np.zeros(br.shape[0], complex); St = Sf.copy()
    for l in range(br.shape[0]):
        f, t = int(br[l, F_BUS]), int(br[l, T_BUS])
        If, It = branch_currents(br[l], V[f], V[t])
        Sf[l] = V[f] * np.conj(If); St[l] = V[t] * np.conj(It)
    return Sf, St
def scheduled(case):
    bus, gen = case['bus'], case['gen']
    S = -(bus[:, PD] + 1j * bus[:, QD])
    for g in gen:
        if g[GEN_STATUS] > 0: S[int(g[GEN_BUS])] += complex(g[PG], g[QG])
    return S / case['baseMVA']
def renumber(case):
    """copy with bus rows numbered 0.. in row order"""
    c = {k: (np.array(v, dtype=float) if isinstance(v, np.ndarray) else v) for k, v in case.items()}
    m = {int(b): i for i, b in enumerate(c['bus'][:, BUS_I])}
    c['bus'][:, BUS_I] = np.arange(len(m))
    for col in (F_BUS, T_BUS): c['branch'][:, col] = [m[int(x)] for x in c['branch'][:, col]]
    c['gen'][:, GEN_BUS] = [m[int(x)] for x in c['gen'][:, GEN_BUS]]
    return c

def close(a, b, tol=1e-8):
    a = np.asarray(a.toarray() if hasattr(a, 'toarray') else a); b = np.asarray(b.toarray() if hasattr(b, 'toarray') else b)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) & np.isfinite(b) | (a == b)))
def need(cond, what, **data):
    if not cond:
        from pv.runner import Fail
        raise Fail(what, data)
def needclose(a, b, what, tol=1e-8, **data):
    a = np.asarray(a.toarray() if hasattr(a, 'toarray') else a); b = np.asarray(b.toarray() if hasattr(b, 'toarray') else b)
    if a.shape != b.shape: need(False, '%s: shape %s, expected %s' % (what, a.shape, b.shape), actual=a, expected=b, **data)
    if a.size == 0: return
    d = np.abs(a - b); ok = (d <= tol * (1 + np.abs(b))) & np.isfinite(b) | (a == b)
    if not np.all(ok):
        k = np.unravel_index(np.argmin(ok), ok.shape)
        need(False, '%s: at %s got %s, expected %s' % (what, tuple(int(i) for i in k), a[k], b[k]), actual=a, expected=b, **data)
