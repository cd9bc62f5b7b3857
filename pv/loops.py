"""Loops over an axis of symbolic length.

The loop invariant is synthesised: the body is executed once for a generic
index v from an arbitrary state (every location the body can change is replaced
by an opaque placeholder); each changed location must come out as

    old + D(v)                      (accumulation)
    [hit(v)] val(v) + [not hit(v)] old   (writes to pairwise distinct places)

with D, hit, val independent of the placeholders.  The invariant "after the
first n iterations the location holds old + sum_{v<n} D(v)" (resp. the written
values at the places hit so far) is then inductive by construction and gives
the state after the loop.  Anything else is rejected (Unsupported)."""
import ast, itertools
import numpy as np
from . import terms as t
from . import arrays as A
from .terms import T, Unsupported
from .arrays import SArray, Size

_n = itertools.count()

def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
            if isinstance(n, (ast.FunctionDef,)): out.add(n.name)
    return out

def freeze(x, d=0):
    if d > 4: return id(x)
    if isinstance(x, list): return ('l', tuple(freeze(y, d + 1) for y in x))
    if isinstance(x, dict): return ('d', tuple((k, freeze(v, d + 1)) for k, v in x.items()))
    if isinstance(x, np.ndarray): return ('a', x.tobytes() if x.dtype != object else id(x))
    if isinstance(x, SArray): return ('s', id(x))
    return id(x)

def visible(fr):
    f = fr; out = {}
    while f is not None:
        for k, v in f.loc.items(): out.setdefault(k, v)
        f = f.parent
    return out

def sym_loop(interp, s, fr, seq):
    from .interp import SymRange
    ax = seq.ax
    for wrap, p in A.axis_blocks(ax):
        if p.kind == 'fix':
            for k in range(p.n):
                interp.assign(s.target, seq.item(wrap(k)), fr)
                interp.block(s.body, fr)
        else:
            one_block(interp, s, fr, seq, wrap, p)
    if s.orelse: interp.block(s.orelse, fr)

def sub_explore(interp, base, thunk, reset):
    saved = (interp.decisions, interp.pos, interp.path, interp.pending)
    todo = [[]]; out = []
    try:
        while todo:
            interp.decisions = list(todo.pop()); interp.pos = 0
            interp.path = list(saved[2]) + base; interp.pending = []
            n0 = len(interp.path)
            reset()
            r = thunk()
            out.append((interp.path[n0:], r))
            todo.extend(interp.pending)
            if len(out) > 32: raise Unsupported('too many paths in loop body')
    finally:
        interp.decisions, interp.pos, interp.path, interp.pending = saved
    return out

def one_block(interp, s, fr, seq, wrap, p):
    from .interp import _Break, _Continue, _Return, PyRaise, Poison
    v = t.fresh(p.dim, 'v')
    cond = p.cond(v)
    base = [] if cond is t.TRUE else [cond]
    names = assigned_names(s.body) | assigned_names([ast.Expr(value=s.target)])
    tnames = set(n.id for n in ast.walk(s.target) if isinstance(n, ast.Name))
    loc0 = dict(fr.loc)
    tag = 'loop%d' % next(_n)
    # which arrays does the body write?
    written = {}
    mark0 = next(A._uid)
    def hook(a):
        if a.uid < mark0: written.setdefault(id(a), (a, a._fn, a.version))      # arrays made inside the body are its own
    def restore():
        for a, f, ver in written.values(): a._fn = f
        fr.loc.clear(); fr.loc.update(loc0)
    frozen = {k: freeze(x) for k, x in visible(fr).items() if isinstance(x, (list, dict, np.ndarray))}
    def check_containers():
        vis = visible(fr)
        for k, f in frozen.items():
            x = loc0.get(k, vis.get(k))
            if freeze(x) != f: raise Unsupported('loop body changes container %s' % k)
    def body():
        try:
            interp.assign(s.target, seq.item(wrap(v)), fr)
            interp.block(s.body, fr)
        except _Continue: pass
        except (_Break, _Return): raise Unsupported('break/return in symbolic loop')
        except PyRaise as e:
            return ('raise', e.exc)
        return ('ok', None)
    A.WRITE_LOG.append(hook)
    try:
        moved = {}      # array -> fixed columns the body changes
        def body1():
            r = body()
            for a, f, ver in written.values():
                if r[0] == 'ok' and a.ndim == 2 and a.axes[1].kind == 'fix':
                    for combo in A.generic_index(a.axes[0], 'g'):
                        for j in range(a.axes[1].n):
                            if j in moved.setdefault(id(a), set()): continue
                            x, y = a.fn(combo[0], j), f(combo[0], j)
                            if x is not y and t.norm(t.lift(x)) != t.norm(t.lift(y)): moved[id(a)].add(j)
            return r
        sub_explore(interp, base, body1, restore)
        restore(); check_containers()
        # placeholders
        arrs = [w[0] for w in written.values()]
        hold = {}
        acc_names = {}
        for i, a in enumerate(arrs):
            nm = '$%s.a%d' % (tag, i)
            hold[id(a)] = nm
        scal = {}
        for n in sorted(names - tnames):
            if n in loc0:
                x = loc0[n]
                if isinstance(x, (T, int, float, complex)) and not isinstance(x, bool): scal[n] = '$%s.s.%s' % (tag, n)
                elif isinstance(x, SArray): scal[n] = '$%s.v.%s' % (tag, n)
        def entry_of(nm, kind, isb):
            def fn(*ix):
                name = nm; jx = []
                for q in ix:
                    if isinstance(q, tuple): name += '.%d' % q[0]; q = q[1]
                    if isinstance(q, int): name += '[%d]' % q
                    else: jx.append(q)
                if isb: return t.pred(name, tuple(jx))
                return t.inp(name, tuple(jx), 'c' if kind == 'c' else 'r')
            return fn
        def reset():
            for a in arrs:
                ph = entry_of(hold[id(a)], a.kind, a.kind == 'b')
                if id(a) in moved:      # columns the body leaves alone keep their value (checked below)
                    ph = (lambda old, ph, mv: lambda i, j: ph(i, j) if not isinstance(j, int) or j in mv else old(i, j))(written[id(a)][1], ph, moved[id(a)])
                a._fn = ph
            fr.loc.clear(); fr.loc.update(loc0)
            for n, nm in scal.items():
                x = loc0[n]
                if isinstance(x, SArray): fr.loc[n] = SArray(x.axes, entry_of(nm, x.kind, x.kind == 'b'), x.kind, x.storage)
                else: fr.loc[n] = t.inp(nm, (), 'c' if A.skind(x) == 'c' else 'r')
        def body2():
            r = body()
            st = {id(a): a._fn for a in arrs}
            lo = {n: fr.loc.get(n) for n in names}
            return r, st, lo
        outs = sub_explore(interp, base, body2, reset)
        restore()
        if len(written) != len(arrs): raise Unsupported('loop body writes different arrays')
    finally:
        A.WRITE_LOG.remove(hook)
        for a, f, ver in written.values(): a._fn = f
        fr.loc.clear(); fr.loc.update(loc0)
    check_containers()
    good = []; raising = []
    from . import solve
    for cs, (r, st, lo) in outs:
        if r[0] == 'raise':
            if not solve.feasible(list(interp.path) + base + cs): continue
            rc = t.mkand(*cs)
            if mentions(t.normc(rc), '$%s.' % tag) or (raising and type(raising[0][1]) is not type(r[1])): raise Unsupported('loop body may raise %r' % (r[1],))
            raising.append((rc, r[1]))      # the state after such an iteration is never looked at
        good.append((cs, st, lo))
    if raising and interp.decide(t.mkex(v, t.mkand(cond, t.mkor(*[c for c, e in raising])))):
        # some iteration raises: the exception leaves the loop, what it leaves behind is not modelled
        def gone(*ix): raise Unsupported('contents of an array written by a loop that raised')
        for a in arrs: a._fn = gone
        for n in names: fr.loc[n] = Poison('value of %s after a loop that raised' % n)
        raise PyRaise(raising[0][1])
    def merged(get):
        """sum over the body paths"""
        out = t.ZERO
        for cs, st, lo in good:
            x = t.lift(get(st, lo))
            out = t.add(out, t.mul(t.br(t.mkand(*cs)), x) if cs else x)
        return out
    mark = '$%s.' % tag
    def close(final, accterm, old):
        """state after the loop of a location with final value `final` in one iteration from accterm"""
        pf = t.norm(final)
        ap = t.norm(accterm)
        if pf == ap: return old
        (am, ac), = ap.items()
        (atom, _), = am[2]
        coef = {}; rest = {}
        for m, c in pf.items():
            d = dict(m[2])
            if d.get(atom, 0) == 1:
                d2 = frozenset(kv for kv in m[2] if kv[0] is not atom)
                coef[(m[0], m[1], d2)] = t_addc(coef.get((m[0], m[1], d2)), c)
            else: rest[m] = c
        for q in (coef, rest):
            if mentions(q, mark): raise Unsupported('loop-carried dependence')
        if coef == t.pconst(1):
            return t.add(old, sumcond(t.polyT(rest)))
        hitp = t.padd(t.pconst(1), coef, -1)          # hit = 1 - coef
        # a write: hit is 0/1 valued, rest = hit * rest
        if t.padd(t.pmul(hitp, hitp), hitp, -1): raise Unsupported('loop update is not a write')
        if t.padd(t.pmul(hitp, rest), rest, -1): raise Unsupported('loop update is not a write')
        # writes at distinct v hit distinct places
        v2 = t.fresh(p.dim, 'w')
        prod = t.pmul(hitp, t.psubst(hitp, {v: v2}))
        diffp = t.pmul(prod, t.padd(t.pconst(1), t.normc(t.eqi(v, v2)), -1))
        if diffp:
            # or all write the same value
            samev = t.pmul(prod, t.padd(rest, t.psubst(rest, {v: v2}), -1))
            if samev: raise Unsupported('loop writes overlap')
            ex = t.mkex(v, t.mkand(cond, t.ascond(t.polyT(hitp))))
            raise Unsupported('loop writes overlap (equal values)')
        h = sumcond(t.polyT(hitp)); val = sumcond(t.polyT(rest))
        return t.add(val, t.mul(old, t.add(1, t.mul(-1, h))))
    # -- an iteration that reads and overwrites only its own locations ------------------------------
    byname = {nm: a for a in arrs for i_, nm in hold.items() if i_ == id(a)}
    def key_of(ix): return tuple((q[0],) if isinstance(q, tuple) else q if isinstance(q, int) else None for q in ix)
    def gens_of(ix): return [q[1] if isinstance(q, tuple) else q for q in ix if not isinstance(q, int)]
    hits = {}
    def region(a, ix):
        """condition (on the index ix, with v) outside of which the iteration leaves array a alone; distinct iterations have disjoint regions"""
        k = (id(a), key_of(ix))
        if k not in hits:
            gs = []; jx = []
            for q, ax in zip(ix, a.axes):
                if isinstance(q, int): jx.append(q); continue
                d = (q[1] if isinstance(q, tuple) else q).dim; g = t.fresh(d, 'g'); gs.append(g)
                jx.append((q[0], g) if isinstance(q, tuple) else g)
            f = t.norm(merged(lambda st, lo: st[id(a)](*jx))); ph = t.norm(entry_of(hold[id(a)], a.kind, False)(*jx))
            cands = []
            for m in f:
                for c in m[1]:
                    if c.op == 'eqi' and v in c.fv() and any(g in c.fv() for g in gs) and c not in cands: cands.append(c)
            for c in cands:
                pc = t.normc(c); out = t.padd(t.pconst(1), pc, -1)
                if t.pmul(out, t.padd(f, ph, -1)): continue
                v2 = t.fresh(p.dim, 'w')
                if t.pmul(t.pmul(pc, t.psubst(pc, {v: v2})), t.padd(t.pconst(1), t.normc(t.eqi(v, v2)), -1)): continue
                hits[k] = (gs, c); break
            else: raise Unsupported('loop-carried dependence')
        gs, c = hits[k]
        return t.subst(c, dict(zip(gs, gens_of(ix))))
    def own(a, ix, final, old):
        hit = region(a, ix); ph_ = t.normc(hit)
        val = t.pmul(ph_, t.norm(final))
        # every value read is of a location only this iteration writes: replace it by the value before the loop
        for _ in range(20):
            found = set()
            def walk(x):
                if x.op in ('in', 'pred') and x.a[0].startswith(mark): found.add(x)
                for y in t._subterms(x): walk(y)
            for m in val:
                for c in m[1]: walk(c)
                for x, e in m[2]: walk(x)
            if not found: break
            sub = {}
            for x in found:
                nm = next((n for n in byname if x.a[0] == n or x.a[0].startswith(n + '.') or x.a[0].startswith(n + '[')), None)
                if nm is None or x.op != 'in': raise Unsupported('loop-carried dependence')
                b = byname[nm]; suf = x.a[0][len(nm):]; rest = list(x.a[1]); jx = []
                import re
                toks = re.findall(r'\.(\d+)|\[(-?\d+)\]', suf)
                for ax in b.axes:
                    if ax.kind == 'fix' and ax.n != 0 and toks and toks[0][1]: jx.append(int(toks.pop(0)[1]))
                    elif ax.kind == 'cat' and toks and toks[0][0]:
                        blk = int(toks.pop(0)[0])
                        if toks and toks[0][1]: raise Unsupported('loop-carried dependence')
                        jx.append((blk, rest.pop(0)))
                    elif rest: jx.append(rest.pop(0))
                    else: raise Unsupported('loop-carried dependence')
                if toks or rest or entry_of(nm, b.kind, False)(*jx) is not x: raise Unsupported('loop-carried dependence')
                rd = t.normc(region(b, jx))
                with_x = {m: c for m, c in val.items() if _has(m, x)}
                if t.pmul(with_x, t.padd(t.pconst(1), rd, -1)): raise Unsupported('loop-carried dependence')
                sub[x] = t.lift(written[id(b)][1](*jx))
            val = t.norm(t.subst(t.polyT(val), sub))
        else: raise Unsupported('loop-carried dependence')
        h = sumcond(t.polyT(ph_))
        return t.add(sumcond(t.polyT(val)), t.mul(old, t.add(1, t.mul(-1, h))))
    def _has(m, x):
        def walk(y): return y is x or any(walk(z) for z in t._subterms(y))
        return any(walk(k) for k in m[1]) or any(walk(y) for y, e in m[2])
    def sumcond(x):
        return t.sumover(v, t.mul(t.br(cond), x) if cond is not t.TRUE else x)
    # new contents
    for a in arrs:
        if a.kind == 'b': raise Unsupported('boolean array written in loop')
        old = a._fn; nm = hold[id(a)]
        ent = entry_of(nm, a.kind, False)
        def newfn(*ix, a=a, old=old, ent=ent):
            final = merged(lambda st, lo: st[id(a)](*ix))
            if id(a) in moved and isinstance(ix[1], int) and ix[1] not in moved[id(a)]:
                same = t.lift(old(*ix))
                if all(t.norm(t.lift(st[id(a)](*ix))) == t.norm(same) for cs, st, lo in good): return same
                raise Unsupported('loop-carried dependence')
            try: return close(final, ent(*ix), t.lift(old(*ix)))
            except Unsupported as e:
                if 'carried' not in str(e) and 'not a write' not in str(e): raise
                return own(a, ix, final, t.lift(old(*ix)))
        for combo in itertools.product(*[A.generic_index(x, 'g') for x in a.axes]):
            newfn(*[c[0] for c in combo])     # reject now, not lazily
        a._setfn(newfn)
    for n, nm in scal.items():
        x = loc0[n]
        if isinstance(x, SArray):
            ent = entry_of(nm, x.kind, False)
            vals = [lo[n] for cs, st, lo in good]
            if x.kind == 'b' or not all(isinstance(y, SArray) and y.ndim == x.ndim and all(p1.same(p2) for p1, p2 in zip(y.axes, x.axes)) for y in vals):
                fr.loc[n] = Poison('loop variable %s' % n); continue
            try:
                f2 = (lambda x=x, n=n, ent=ent: lambda *ix: close(merged(lambda st, lo: lo[n].fn(*ix)), ent(*ix), t.lift(x.fn(*ix))))()
                for combo in itertools.product(*[A.generic_index(q, 'g') for q in x.axes]): f2(*[c[0] for c in combo])
                kind = max([x.kind] + [y.kind for y in vals], key=lambda k: A.ORDER[k])
                fr.loc[n] = SArray(x.axes, f2, kind, x.storage)
            except Unsupported as e: fr.loc[n] = Poison('loop variable %s: %s' % (n, e))
        else:
            acc = t.inp(nm, (), 'c' if A.skind(x) == 'c' else 'r')
            try: fr.loc[n] = close(merged(lambda st, lo: lo[n]), acc, t.lift(x))
            except Unsupported as e: fr.loc[n] = Poison('loop variable %s: %s' % (n, e))
    for n in names:
        if n in scal: continue
        fr.loc[n] = Poison('value of %s after a loop' % n)

def t_addc(a, b):
    return b if a is None else (a[0] + b[0], a[1] + b[1])

def mentions(p, mark):
    seen = set()
    def walk(x):
        if x in seen: return False
        seen.add(x)
        if x.op in ('in', 'pred') and x.a[0].startswith(mark): return True
        return any(walk(y) for y in t._subterms(x))
    for m, c in p.items():
        for k in m[1]:
            if walk(k): return True
        for x, e in m[2]:
            if walk(x): return True
    return False


# ---- loops with a stated invariant --------------------------------------------------------
class LoopContract(object):
    """havoc(interp, fr): put the frame into an arbitrary state satisfying the invariant (returns the
       arrays it changed in place); check(interp, fr): [(name, claim)] stating the invariant of the
       current state.  The loop is executed from its entry state and from the havocked state."""
    def __init__(self, havoc, check, keep=()): self.havoc = havoc; self.check = check; self.first = True; self.keep = keep; self.start = None; self.leave = None      # leave(interp, fr): every way out of the loop

def contract_loop(interp, s, fr, lc, seq):
    from .interp import _Break, _Continue, LoopCut, Infeasible, Poison
    names = assigned_names(s.body)
    if seq is not None: names |= assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(value=0))])
    k = next(_n)
    interp.loop_at = None; interp.loop_names = names; interp.loop_stmt = s
    for nm, c in lc.check(interp, fr): interp.side.append(('loop %d: invariant holds on entry: %s' % (s.lineno, nm), c))
    before = dict(fr.loc)
    def arrays_of(vals):
        out = {}
        def walk(x, d):
            if isinstance(x, SArray):
                while x is not None and id(x) not in out:
                    out[id(x)] = x; x = x.base
            elif isinstance(x, (list, tuple)) and d < 4:
                for y in x: walk(y, d + 1)
            elif isinstance(x, dict) and d < 4:
                for y in x.values(): walk(y, d + 1)
        for v in vals: walk(v, 0)
        return out
    entry = lc.first and interp.decide(t.pred('$loop%d.%d.first' % (s.lineno, k), ()))
    inplace = []
    if lc.start is not None: lc.start(interp, fr, entry)
    if not entry:
        inplace = lc.havoc(interp, fr) or []
        for n in names:
            if n in before and fr.loc.get(n) is before[n] and n not in lc.keep and not any(before[n] is a for a in inplace): fr.loc[n] = Poison('loop variable %s outside the invariant' % n)
    kept = arrays_of([v for n, v in visible(fr).items()])
    start = {i: a._fn for i, a in kept.items()}
    ok = set(id(a) for a in inplace)
    if entry: ok |= set(kept)
    fresh_ = {id(fr.loc[n]): n for n in fr.loc if fr.loc[n] is not before.get(n)}
    old = arrays_of([v for n, v in before.items()])
    cut = interp.decide(t.pred('$loop%d.%d.again' % (s.lineno, k), ()))
    def leave():
        if lc.leave is not None: lc.leave(interp, fr)
        for nm in names:
            if nm not in fr.loc: fr.loc[nm] = Poison('value of %s after a loop' % nm)
    at = None
    if seq is None:
        if not interp.truth(interp.ev(s.test, fr)):
            if cut: raise Infeasible()
            interp.block(s.orelse, fr); leave(); return
        if not cut: raise Infeasible()
    else:
        if not cut: leave(); return
        blocks = A.axis_blocks(seq.ax)
        for bi, (wrap, p) in enumerate(blocks):
            last = bi == len(blocks) - 1
            if not last and not interp.decide(t.pred('$loop%d.%d.block%d' % (s.lineno, k, bi), ())): continue
            if p.kind == 'fix': 
                if p.n != 1: raise Unsupported('loop contract over fixed block')
                interp.assign(s.target, seq.item(wrap(0)), fr)
            else:
                v = t.fresh(p.dim, 'v')
                c = p.cond(v)
                if c is not t.TRUE: interp.path.append(c)
                interp.assign(s.target, seq.item(wrap(v)), fr)
                at = v
            break
    try: interp.block(s.body, fr)
    except _Continue: pass
    except _Break:
        if lc.leave is not None: lc.leave(interp, fr)
        return
    interp.loop_at = at; interp.loop_names = names; interp.loop_stmt = s
    for i, a in kept.items():
        if a._fn is start[i] or i in ok: continue
        if i in fresh_:
            # an array rebound by the havoc and then changed in place: the array it stands for must not be shared
            b = before.get(fresh_[i])
            if not isinstance(b, SArray) or not any(v is b for n, v in before.items() if n != fresh_[i]): continue
        raise Unsupported('loop changes an array outside the invariant')
    for nm, c in lc.check(interp, fr): interp.side.append(('loop %d: invariant preserved: %s' % (s.lineno, nm), c))
    raise LoopCut()
