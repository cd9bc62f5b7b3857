from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv.runner import RT, Skip
from pv import terms as t
from . import gen as G
from .gen import need, needclose
import numpy as np, copy
from pypower.ppoption import ppoption

# the documented options and their defaults
DEFAULTS = {'PF_ALG': 1, 'PF_TOL': 1e-08, 'PF_MAX_IT': 10, 'PF_MAX_IT_FD': 30, 'PF_MAX_IT_GS': 1000, 'ENFORCE_Q_LIMS': False, 'PF_DC': False, 'PF_LIN_SOLVER_NR': '',
    'CPF_PARAMETERIZATION': 3, 'CPF_STOP_AT': 'NOSE', 'CPF_STEP': 0.05, 'CPF_ADAPT_STEP': False, 'CPF_ERROR_TOL': 0.001, 'CPF_STEP_MIN': 0.0001, 'CPF_STEP_MAX': 0.2, 'CPF_PLOT_LEVEL': 0,
    'CPF_PLOT_BUS': '', 'CPF_USER_CALLBACK': '', 'CPF_USER_CALLBACK_ARGS': '', 'OPF_ALG': 0, 'OPF_VIOLATION': 5e-06, 'OPF_FLOW_LIM': 0, 'OPF_IGNORE_ANG_LIM': False, 'OPF_ALG_DC': 0, 'VERBOSE': 1,
    'OUT_ALL': -1, 'OUT_SYS_SUM': True, 'OUT_AREA_SUM': False, 'OUT_BUS': True, 'OUT_BRANCH': True, 'OUT_GEN': False, 'OUT_ALL_LIM': -1, 'OUT_V_LIM': 1, 'OUT_LINE_LIM': 1, 'OUT_PG_LIM': 1, 'OUT_QG_LIM': 1,
    'RETURN_RAW_DER': 0, 'PDIPM_FEASTOL': 0, 'PDIPM_GRADTOL': 1e-06, 'PDIPM_COMPTOL': 1e-06, 'PDIPM_COSTTOL': 1e-06, 'PDIPM_MAX_IT': 150, 'SCPDIPM_RED_IT': 20,
    'GRB_METHOD': 1, 'GRB_TIMELIMIT': float('inf'), 'GRB_THREADS': 0, 'GRB_OPT': 0}
NAMES = list(DEFAULTS) + ['MY_OPTION']
def value(S, n): return S.scalar('new.' + n)
def base(S): return {n: S.scalar('old.' + n) for n in NAMES}
def case(names, kind):
    """kind: no base, base None, any base (every value arbitrary)"""
    def f(S):
        kw = {n: value(S, n) for n in names}
        return ([] if kind == 'defaults' else [None] if kind == 'None' else [base(S)]), kw
    return f
def post_for(names, kind):
    def post(out, args, snap, ghost, it):
        if not isinstance(out, dict): return [('an options set', lambda: False)]
        cl = [('a set of its own', lambda: not args or out is not args[0])]
        old = dict(DEFAULTS) if kind != 'base' else snap[0]
        want = set(old) | set(names)
        cl.append(('exactly the expected names', lambda: set(out) == want))
        if set(out) == want:
            for n in want:
                x = t.inp('new.' + n, (), 'r') if n in names else old[n]
                cl.append(('value of %s' % n, (lambda n=n, x=x: same(out[n], x))))
        return cl
    return post
def same(a, b):
    if isinstance(b, t.T) or isinstance(a, t.T): return a is b
    return type(a) == type(b) and a == b or (isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and a == b)
CONTRACTS = []
class Multi(FunContract): pass
subsets = [[]] + [[n] for n in NAMES] + [NAMES, NAMES[:9], NAMES[5:30:3], NAMES[20:]]
for kind in ('defaults', 'None', 'base'):
    for i, names in enumerate(subsets):
        CONTRACTS.append(FunContract(ppoption, None, {'%s, %s' % (kind, 'no overrides' if not names else names[0] if len(names) == 1 else '%d overrides' % len(names)): case(names, kind)}, post=post_for(names, kind), name='ppoption'))

def rt_options(rng, k):
    pick = lambda: {} if rng.rand() < .3 else {n: rng.choice([0, 1, 2.5, -1]) for n in NAMES if rng.rand() < .3}
    sets = [(ppoption(), dict(DEFAULTS))]
    for _ in range(rng.randint(2, 8)):
        o = pick(); j = rng.randint(-1, len(sets)); snap = [dict(a) for a, _ in sets]
        if j < 0: new, want = ppoption(**o), {**DEFAULTS, **o}
        else: new, want = ppoption(sets[j][0], **o), {**sets[j][1], **o}
        for (a, _), b in zip(sets, snap): need(a == b, 'deriving an options set changed an existing one')
        need(all(new is not a for a, _ in sets), 'a set of its own'); need(new == want, 'options', got=new, expected=want)
        sets.append((new, want))
    # changing a derived set leaves the others alone
    j = rng.randint(len(sets)); snap = [dict(a) for a, _ in sets]; sets[j][0]['VERBOSE'] = 17
    for i, ((a, _), b) in enumerate(zip(sets, snap)): need(i == j or a == b, 'sets share storage')
    need(ppoption() == DEFAULTS, 'defaults')
    return len(sets)
RUNTIME = [RT('chains of derivations', rt_options, 60, 2000, ['ppoption'], 'up to 8 derived sets')]
ASSUMPTIONS = ['option values are opaque (any value); the names overridden are enumerated: none, each documented one, an undocumented one and larger subsets', 'a base passed in is a full options set; a partial dictionary is returned with just its own entries plus the overrides']
EXPLANATION = 'the result holds exactly the base (or default) entries with the named ones replaced, in a new dictionary; the base is unchanged'
LEVEL = 'other'
