"""Power-flow driver runpf under contract: its callees are replaced by their contracts."""
from pv.verify import FunContract, register, Claim, ANY, snapshot
from pv import solve
from pv.arrays import dimaxis, fixaxis, cataxis
from .net import *
from .c07 import masked
import numpy as np
from pypower.runpf import runpf
from pypower.loadcase import loadcase
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.printpf import printpf
from pypower.savecase import savecase
from pypower.bustypes import bustypes
from pypower.makeBdc import makeBdc
from pypower.makeSbus import makeSbus
from pypower.makeYbus import makeYbus
from pypower.makeB import makeB
from pypower.dcpf import dcpf
from pypower.newtonpf import newtonpf
from pypower.fdpf import fdpf
from pypower.gausspf import gausspf
from pypower.pfsoln import pfsoln
from pypower.ppoption import ppoption

def stub(fn, f):
    c = FunContract(fn, None, {})
    c.callsite = f
    return c
class Call(object):
    def __init__(self, name, args, res=None): self.name = name; self.args = args; self.res = res
def log(interp, name, args, res=None):
    interp.ghost.append(Call(name, snapshot(list(args)), snapshot(res) if res is not None else None))
def calls(ghost, name): return [g for g in ghost if isinstance(g, Call) and g.name == name]

class World(object):
    """the symbolic case a driver run sees"""
    def __init__(self, S, nref=1, brcols=17, opts=None):
        self.S = S
        nb, ng, nl = S.dim('nb', 1, 4), S.dim('ng', 1, 5), S.dim('nl', 1, 4)
        self.nb, self.ng, self.nl = nb, ng, nl
        self.bus = bus_table(S, nb)
        self.gen = gen_table(S, ng, cols={GEN_STATUS: ('enum', (0, 1)), VG: 'p'})
        self.branch = branch_table(S, nl, ncols=17)
        self.ext = [S.table('xbus', S.dim('nbx', 1, 4), 13, {}), S.table('xgen', S.dim('ngx', 1, 4), 21, {}), S.table('xbranch', S.dim('nlx', 1, 4), brcols, {})]
        self.base = S.scalar('baseMVA', 'p')
        self.refs = [t.ifun('ref%d' % k, (), 'nb') for k in range(nref)]
        for k in range(nref): S.index('ref%d' % k, (), 'nb')
        for a in range(nref):
            for b in range(a): S.pre.append(t.mknot(t.eqi(self.refs[a], self.refs[b])))
        self.on = lambda g: self.gen.num(g, GEN_STATUS) > 0
        self.gb = lambda g: row(nb, self.gen, GEN_BUS, g)
        for r in self.refs: S.pre.append(A.any_over(ng, lambda g: t.mkand(self.on(g), A.ixeq(self.gb(g), r))))
        S.inp('bt', (t.iv('i', 'nb'),), 'e(1,2)')
        isref = lambda i: t.mkor(*[t.eqi(i, r) for r in self.refs])
        self.isref = isref
        bt = lambda i, k: t.cmp_eq(t.inp('bt', (i,), 'e(1,2)'), t.q(k))
        self.ispv = lambda i: t.mkand(t.mknot(isref(i)), bt(i, 2)); self.ispq = lambda i: t.mkand(t.mknot(isref(i)), bt(i, 1))
        self.ref = SArray([fixaxis(nref)], lambda k: t.mk('idx', self.refs[k]), 'i')
        self.pv = masked(nb, self.ispv)[0]; self.pq = masked(nb, self.ispq)[0]
        self.xgenres = S.table('rgen', S.dim('ngx', 1, 4), 21, {}); self.xbranchres = S.table('rbranch', S.dim('nlx', 1, 4), 17, {}); self.xbusres = S.table('rbus', S.dim('nbx', 1, 4), 13, {})
        self.offg = masked(dimaxis('ngx'), lambda i: t.pred('offg', (i,)))[0]; self.offl = masked(dimaxis('nlx'), lambda i: t.pred('offl', (i,)))[0]
    # contracts of the callees --------------------------------------------------------
    def stubs(self):
        def st_load(interp, cd, *a, **k):
            r = {'version': '2', 'baseMVA': self.base, 'bus': self.ext[0].copy(), 'gen': self.ext[1].copy(), 'branch': self.ext[2].copy()}
            log(interp, 'loadcase', [cd]); return r
        def st_e2i(interp, ppc, *a, **k):
            log(interp, 'ext2int', [ppc])
            return {'version': '2', 'baseMVA': self.base, 'bus': self.bus.copy(), 'gen': self.gen.copy(), 'branch': self.branch.copy(), 'order': {'state': 'i'}}
        def st_i2e(interp, ppc, *a, **k):
            log(interp, 'int2ext', [ppc])
            r = dict(ppc); r['order'] = {'state': 'e', 'gen': {'status': {'off': self.offg}}, 'branch': {'status': {'off': self.offl}}}
            r['bus'] = self.xbusres.copy(); r['gen'] = self.xgenres.copy(); r['branch'] = self.xbranchres.copy()
            return r
        def st_bt(interp, bus, gen): log(interp, 'bustypes', [bus, gen]); return self.ref.copy(), self.pv.copy(), self.pq.copy()
        def st_print(interp, *a, **k): log(interp, 'printpf', a[:1])
        def st_save(interp, *a, **k): log(interp, 'savecase', a[:2]); return a[0]
        return [stub(loadcase, st_load), stub(ext2int, st_e2i), stub(int2ext, st_i2e), stub(bustypes, st_bt), stub(printpf, st_print), stub(savecase, st_save)]
    def same(self, name, x, y, free=()):
        """claims that a table equals another one outside the given columns"""
        if not isinstance(x, SArray) or x.ndim != 2 or x.axes[1].kind != 'fix': return [(name + ' is a table', lambda: False)]
        cl = [(name + ' shape', lambda: A.match_axes(x.axes[0], y.axes[0]) is None and x.axes[1].n == y.axes[1].n)]
        if x.axes[1].n == y.axes[1].n and x.axes[0].same(y.axes[0]):
            cl += [('%s column %d' % (name, j), Claim([y.axes[0]], lambda i, j=j: x.num(i, j) - y.num(i, j))) for j in range(y.axes[1].n) if j not in free]
        return cl
    def external(self, out, ghost):
        """common end of a run: the results are int2ext's, with zeroed rows for what is out of service"""
        if not (isinstance(out, tuple) and len(out) == 2 and isinstance(out[0], dict)): return [('returns results, success', lambda: False)]
        r, ok = out
        cl = [('one conversion back', lambda: len(calls(ghost, 'int2ext')) == 1), ('success is reported in the results', lambda: r.get('success') is ok or r.get('success') == ok)]
        R = [snapshot(r[n]) for n in ('bus', 'gen', 'branch')]
        cl += self.same('result bus', R[0], self.xbusres) + self.same('result gen', R[1], self.xgenres, (PG, QG)) + self.same('result branch', R[2], self.xbranchres, (PF, QF, PT, QT))
        for nm, x, y, off, cols in (('gen', R[1], self.xgenres, 'offg', (PG, QG)), ('branch', R[2], self.xbranchres, 'offl', (PF, QF, PT, QT))):
            for j in cols:
                cl.append(('out-of-service %s rows report zero, column %d' % (nm, j),
                           Claim([y.axes[0]], lambda i, x=x, y=y, off=off, j=j: x.num(i, j) - t.ite(t.pred(off, (i,)), t.ZERO, y.num(i, j)))))
        return cl
    def entry(self, ghost, brcols):
        """what is handed to ext2int is the loaded case, widened for the flow columns"""
        c = calls(ghost, 'ext2int')
        if len(c) != 1: return [('one conversion to internal numbering', lambda: False)]
        p = c[0].args[0]
        return self.same('case bus', p['bus'], self.ext[0]) + self.same('case gen', p['gen'], self.ext[1]) + (self.same('case branch', p['branch'], self.ext[2]) if brcols > 16 else
               [('flow columns added', lambda: p['branch'].ndim == 2 and p['branch'].axes[1].isfix(17))] + [('case branch column %d' % j, Claim([self.ext[2].axes[0]], lambda i, j=j: col(p['branch'], i, j) - self.ext[2].num(i, j))) for j in range(brcols)])
def col(x, i, j):
    return x.num(i, j)
