From c837874d09c29d80adca77b77b588f8d001e91a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 01/35] fix: runpf, runcpf: widen a branch table that lacks
 only the last flow column

---
 pypower/runcpf.py | 4 ++--
 pypower/runpf.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 1e40a94..4525c81 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -65,7 +65,7 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     nb = ppcbase["bus"].shape[0]
 
     # add zero columns to branch for flows if needed
-    if ppcbase["branch"].shape[1] < QT:
+    if ppcbase["branch"].shape[1] < QT + 1:
         ppcbase["branch"] = c_[ppcbase["branch"],
                                zeros((ppcbase["branch"].shape[0],
                                       QT - ppcbase["branch"].shape[1] + 1))]
@@ -86,7 +86,7 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     ppctarget = loadcase(targetcasedata)
 
     # add zero columns to branch for flows if needed
-    if ppctarget["branch"].shape[1] < QT:
+    if ppctarget["branch"].shape[1] < QT + 1:
         ppctarget["branch"] = c_[ppctarget["branch"],
                                  zeros((ppctarget["branch"].shape[0],
                                         QT - ppctarget["branch"].shape[1] + 1))]
diff --git a/pypower/runpf.py b/pypower/runpf.py
index 8ffcf4e..79fcdce 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -85,7 +85,7 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
     ppc = loadcase(casedata)
 
     ## add zero columns to branch for flows if needed
-    if ppc["branch"].shape[1] < QT:
+    if ppc["branch"].shape[1] < QT + 1:
         ppc["branch"] = c_[ppc["branch"],
                            zeros((ppc["branch"].shape[0],
                                   QT - ppc["branch"].shape[1] + 1))]
-- 
2.43.0


From 1b6e1b26474c99776d12087610d628419924fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:53 +0000
Subject: [PATCH 02/35] fix: loadcase: integer-typed case tables truncated the
 results stored in them

---
 pypower/loadcase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 84ee92a..b5c5436 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -186,6 +186,12 @@ def loadcase(casefile,
                 else:
                     ppc['version'] = '2'
 
+            ## results are stored in these tables, so they must hold real numbers
+            for name in ('bus', 'gen', 'branch', 'areas', 'gencost'):
+                if hasattr(ppc.get(name), 'dtype') and \
+                        ppc[name].dtype.kind in 'biu':
+                    ppc[name] = ppc[name].astype(float)
+
             if (ppc['version'] == '1'):
                 # convert from version 1 to version 2
                 ppc['gen'], ppc['branch'] = ppc_1to2(ppc['gen'], ppc['branch']);
-- 
2.43.0


From f2b60ecf448c7b5b9a301c52c666fe713466832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:54 +0000
Subject: [PATCH 03/35] fix: power-flow solvers failed on networks without load
 buses or without controlled buses

---
 pypower/fdpf.py     | 12 ++++++------
 pypower/gausspf.py  |  4 ++--
 pypower/newtonpf.py |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pypower/fdpf.py b/pypower/fdpf.py
index 64c1252..2b85d61 100644
--- a/pypower/fdpf.py
+++ b/pypower/fdpf.py
@@ -60,8 +60,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
     Q = mis[pq].imag
 
     ## check tolerance
-    normP = linalg.norm(P, inf)
-    normQ = linalg.norm(Q, inf)
+    normP = linalg.norm(P, inf) if len(P) else 0.0
+    normQ = linalg.norm(Q, inf) if len(Q) else 0.0
     if verbose > 1:
         sys.stdout.write('\niteration     max mismatch (p.u.)  ')
         sys.stdout.write('\ntype   #        P            Q     ')
@@ -98,8 +98,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
         Q = mis[pq].imag
 
         ## check tolerance
-        normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normP = linalg.norm(P, inf) if len(P) else 0.0
+        normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
             sys.stdout.write("\n  %s  %3d   %10.3e   %10.3e" %
                              (type,i, normP, normQ))
@@ -123,8 +123,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
         Q = mis[pq].imag
 
         ## check tolerance
-        normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normP = linalg.norm(P, inf) if len(P) else 0.0
+        normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
             sys.stdout.write('\n  Q  %3d   %10.3e   %10.3e' % (i, normP, normQ))
         if normP < tol and normQ < tol:
diff --git a/pypower/gausspf.py b/pypower/gausspf.py
index 2ca8b2b..cd97326 100644
--- a/pypower/gausspf.py
+++ b/pypower/gausspf.py
@@ -61,7 +61,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
              mis[pq].imag   ]
 
     ## check tolerance
-    normF = linalg.norm(F, inf)
+    normF = linalg.norm(F, inf) if len(F) else 0.0
     if verbose > 1:
         sys.stdout.write('\n it    max P & Q mismatch (p.u.)')
         sys.stdout.write('\n----  ---------------------------')
@@ -99,7 +99,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
                  mis[pq].imag  ]
 
         ## check for convergence
-        normF = linalg.norm(F, inf)
+        normF = linalg.norm(F, inf) if len(F) else 0.0
         if verbose > 1:
             sys.stdout.write('\n%3d        %10.3e' % (i, normF))
         if normF < tol:
diff --git a/pypower/newtonpf.py b/pypower/newtonpf.py
index 79ed7ce..393eb63 100644
--- a/pypower/newtonpf.py
+++ b/pypower/newtonpf.py
@@ -69,7 +69,7 @@ def newtonpf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
              mis[pq].imag  ]
 
     ## check tolerance
-    normF = linalg.norm(F, inf)
+    normF = linalg.norm(F, inf) if len(F) else 0.0
     if verbose > 1:
         sys.stdout.write('\n it    max P & Q mismatch (p.u.)')
         sys.stdout.write('\n----  ---------------------------')
@@ -117,7 +117,7 @@ def newtonpf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
                  mis[pq].imag  ]
 
         ## check for convergence
-        normF = linalg.norm(F, inf)
+        normF = linalg.norm(F, inf) if len(F) else 0.0
         if verbose > 1:
             sys.stdout.write('\n%3d        %10.3e' % (i, normF))
         if normF < tol:
-- 
2.43.0


From 1c5d28c195c8428c5819e6073474e59d825190f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:09 +0000
Subject: [PATCH 04/35] fix: polycost returns an empty vector, not a list, when
 there are no polynomial costs

---
 pypower/polycost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/polycost.py b/pypower/polycost.py
index fd57359..bb2ee83 100644
--- a/pypower/polycost.py
+++ b/pypower/polycost.py
@@ -30,7 +30,7 @@ def polycost(gencost, Pg, der=0):
     """
     if gencost.size == 0:
         #User has a purely linear piecewise problem, exit early with empty array
-        return []
+        return zeros(0)
 
     if any(gencost[:, MODEL] == PW_LINEAR):
         sys.stderr.write('polycost: all costs must be polynomial\n')
-- 
2.43.0


From cd754e0915b363ca42665a49520f5016ee0078d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:09 +0000
Subject: [PATCH 05/35] fix: OPF Hessians accept reactive power costs and use
 all of their rows

---
 pypower/opf_costfcn.py | 4 ++--
 pypower/opf_hessfcn.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index ab58406..a3ef5bd 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -142,7 +142,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ## ---- evaluate cost Hessian -----
     pcost = gencost[range(ng), :]
     if gencost.shape[0] > ng:
-        qcost = gencost[ng + 1:2 * ng, :]
+        qcost = gencost[ng:2 * ng, :]
     else:
         qcost = array([])
 
@@ -152,7 +152,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp]*baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index de842f5..23683c0 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -103,7 +103,7 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp] * baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
-- 
2.43.0


From 8a9594afa648f637f52374bf86bbc84a3cee3f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:09 +0000
Subject: [PATCH 06/35] fix: OPF objective counts a single polynomial cost in
 the first row and skips an empty user cost

---
 pypower/opf_costfcn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index a3ef5bd..264ba07 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -58,7 +58,7 @@ def opf_costfcn(x, om, return_hessian=False):
     # formulation, pwl cost is the sum of the y variables.
     ipol = find(gencost[:, MODEL] == POLYNOMIAL)   ## poly MW and MVAr costs
     xx = r_[ Pg, Qg ] * baseMVA
-    if any(ipol):
+    if len(ipol) > 0:
         f = sum( totcost(gencost[ipol, :], xx[ipol]) )  ## cost of poly P or Q
     else:
         f = 0
@@ -160,7 +160,7 @@ def opf_costfcn(x, om, return_hessian=False):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if N is not None and issparse(N):
+    if issparse(N) and N.nnz > 0:
         d2f = d2f + AA * H * AA.T + 2 * N.T * M * QQ * \
                 sparse((HwC, (range(nw), range(nw))), (nw, nw)) * N
 
-- 
2.43.0


From 7f3e7e3c34e754804d2e33ce75b4699646597651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:09 +0000
Subject: [PATCH 07/35] fix: opf_model.add_costs stores dd, rh, kk and mm under
 the block's own name

---
 pypower/opf_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 861c455..6e33e83 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -358,16 +358,16 @@ class opf_model(object):
             self.cost["data"]["H"][name]  = cp["H"]
 
         if 'dd' in cp:
-            self.cost["data"]["dd"]["name"] = cp["dd"]
+            self.cost["data"]["dd"][name] = cp["dd"]
 
         if 'rh' in cp:
-            self.cost["data"]["rh"]["name"] = cp["rh"]
+            self.cost["data"]["rh"][name] = cp["rh"]
 
         if 'kk' in cp:
-            self.cost["data"]["kk"]["name"] = cp["kk"]
+            self.cost["data"]["kk"][name] = cp["kk"]
 
         if 'mm' in cp:
-            self.cost["data"]["mm"]["name"] = cp["mm"]
+            self.cost["data"]["mm"][name] = cp["mm"]
 
         ## update number of vars and var sets
         self.cost["N"]  = self.cost["idx"]["iN"][name]
-- 
2.43.0


From 0c91186a9c521b5829638a15aa0f6cb17066bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:41 +0000
Subject: [PATCH 08/35] fix: opf_model.get_cost_params(name) no longer
 overwrites the model's full cost parameters

---
 pypower/opf_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 6e33e83..1a3fffc 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -587,6 +587,7 @@ class opf_model(object):
         cp = self.cost["params"]
 
         if name is not None:
+            cp = cp.copy()
             if self.getN('cost', name):
                 idx = arange(self.cost["idx"]["i1"][name], self.cost["idx"]["iN"][name])
                 nwa = self.cost["idx"]["i1"][name]
-- 
2.43.0


From 2e15661c772f674d9d769b4d4243201737d62090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:41 +0000
Subject: [PATCH 09/35] fix: constraint and cost blocks over all variables keep
 the variable list of the time they were added

---
 pypower/opf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 1a3fffc..1be91e0 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -225,7 +225,7 @@ class opf_model(object):
                 u = inf * ones(N)
 
             if len(varsets) == 0:
-                varsets = self.var["order"]
+                varsets = list(self.var["order"])
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
@@ -309,7 +309,7 @@ class opf_model(object):
             varsets = []
 
         if len(varsets) == 0:
-            varsets = self.var["order"]
+            varsets = list(self.var["order"])
 
         nw, nx = cp["N"].shape
 
-- 
2.43.0


From 3f5c1a9db8690046dfee9cce709b2dd3e75127a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 10/35] fix: AC OPF without flow-limited branches no longer
 fails

---
 pypower/opf_consfcn.py | 2 +-
 pypower/opf_hessfcn.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_consfcn.py b/pypower/opf_consfcn.py
index a146462..8aa20bd 100644
--- a/pypower/opf_consfcn.py
+++ b/pypower/opf_consfcn.py
@@ -120,7 +120,7 @@ def opf_consfcn(x, om, Ybus, Yf, Yt, ppopt, il=None, *args):
                 h = r_[ Sf * conj(Sf) - flow_max, ## branch S limits (from bus)
                         St * conj(St) - flow_max ].real  ## branch S limits (to bus)
     else:
-        h = zeros((0,1))
+        h = zeros(0)
 
     ##----- evaluate partials of constraints -----
     ## index ranges
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index 23683c0..c00e0a9 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -161,6 +161,9 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
         ], "csr")
 
     ##----- evaluate Hessian of flow constraints -----
+    if nl2 == 0:             ## no constrained branches
+        return d2f + d2G
+
     nmu = int(len(lmbda["ineqnonlin"]) / 2)
     muF = lmbda["ineqnonlin"][:nmu]
     muT = lmbda["ineqnonlin"][nmu:nmu + nmu]
-- 
2.43.0


From 0468a083aca0d48acc5bcef216e4d206ec4d35c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:04 +0000
Subject: [PATCH 11/35] fix: attach piecewise-linear reactive costs to the
 reactive outputs in the OPF

makeAy treated the cost row of the first generator's reactive power as a
real power cost, and opf_setup passed the column before the first Qg
variable, so reactive cost segments constrained the wrong variables.
---
 pypower/makeAy.py    | 2 +-
 pypower/opf_setup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeAy.py b/pypower/makeAy.py
index cf71717..19ffa13 100644
--- a/pypower/makeAy.py
+++ b/pypower/makeAy.py
@@ -73,7 +73,7 @@ def makeAy(baseMVA, ng, gencost, pgbas, qgbas, ybas):
             print(f'makeAy: bad x axis data in row {i} of gencost matrix')
         b = m * p[:ns - 1] - c[:ns - 1]        ## and rhs
         by = r_[by,  b]
-        if i > ng:
+        if i >= ng:
             sidx = qgbas + (i - ng) - 1        ## this was for a q cost
         else:
             sidx = pgbas + i - 1               ## this was for a p cost
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index ca37b7b..07e945b 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -155,7 +155,7 @@ def opf_setup(ppc, ppopt):
         ## more problem dimensions
         nv    = nb           ## number of voltage magnitude vars
         nq    = ng           ## number of Qg vars
-        q1    = ng           ## index of 1st Qg column in Ay
+        q1    = 1 + ng       ## index of 1st Qg column in Ay
 
         ## dispatchable load, constant power factor constraints
         Avl, lvl, uvl, _  = makeAvl(baseMVA, gen)
-- 
2.43.0


From 719f29bc79254bf758bdb5dbb01a641f0379b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:25 +0000
Subject: [PATCH 12/35] fix: continuation power flow failed with ValueError on
 current SciPy

The augmented Jacobian row was stacked from a vector and a bare number,
which scipy.sparse.hstack no longer accepts.
---
 pypower/cpf_corrector.py | 2 +-
 pypower/cpf_predictor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/cpf_corrector.py b/pypower/cpf_corrector.py
index 9043957..bd4110e 100644
--- a/pypower/cpf_corrector.py
+++ b/pypower/cpf_corrector.py
@@ -92,7 +92,7 @@ def cpf_corrector(Ybus, Sbus, V0, ref, pv, pq,
         # augment J with real/imag -Sxfr and z^T
         J = vstack([
             hstack([J, dF_dlam]),
-            hstack([dP_dV, dP_dlam])
+            r_[dP_dV, dP_dlam].reshape((1, -1))
         ], format="csr")
 
         # compute update step
diff --git a/pypower/cpf_predictor.py b/pypower/cpf_predictor.py
index ef33a8f..a60bbb9 100644
--- a/pypower/cpf_predictor.py
+++ b/pypower/cpf_predictor.py
@@ -37,7 +37,7 @@ def cpf_predictor(V, lam, Ybus, Sxfr, pv, pq,
     # linear operator for computing the tangent predictor
     J = vstack([
         hstack([J, dF_dlam]),
-        hstack([dP_dV, dP_dlam])
+        r_[dP_dV, dP_dlam].reshape((1, -1))
     ], format="csr")
 
     Vaprv = angle(V)
-- 
2.43.0


From da8a8907747922a1fe92339f0bbd3b7f7deca6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:21 +0000
Subject: [PATCH 13/35] fix: include the documented Gurobi options in the
 options set

gurobi_options reads GRB_METHOD etc. from the options, but ppoption never
put them there.
---
 pypower/ppoption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/ppoption.py b/pypower/ppoption.py
index cb9ff87..d43df12 100644
--- a/pypower/ppoption.py
+++ b/pypower/ppoption.py
@@ -211,7 +211,7 @@ def ppoption(ppopt=None, **kw_args):
 
     default_ppopt = {}
 
-    options = PF_OPTIONS + CPF_OPTIONS + OPF_OPTIONS + OUTPUT_OPTIONS + PDIPM_OPTIONS
+    options = PF_OPTIONS + CPF_OPTIONS + OPF_OPTIONS + OUTPUT_OPTIONS + PDIPM_OPTIONS + GUROBI_OPTIONS
 
     for name, default, _ in options:
         default_ppopt[name.upper()] = default
-- 
2.43.0


From 3d64a5b0d6fdcd627a4187434201d54cafb9233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:04 +0000
Subject: [PATCH 14/35] fix: total_load failed for dispatchable loads (float
 bus index, boolean sparse data)

---
 pypower/total_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/total_load.py b/pypower/total_load.py
index 7eb85a3..684faf3 100644
--- a/pypower/total_load.py
+++ b/pypower/total_load.py
@@ -100,11 +100,11 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
 
         ## create map of external bus numbers to bus indices
         i2e = bus[:, BUS_I].astype(int)
-        e2i = zeros(max(i2e) + 1)
+        e2i = zeros(max(i2e) + 1, int)
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(int), (e2i[gbus], arange(ng))), (nb, ng))
         Pdd = -Cld * gen[:, PMIN]      ## real power
         if want_Q:
             Q = zeros(ng)
-- 
2.43.0


From 83ee22d97dd78084f9a8e33955677847e6d3d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:04 +0000
Subject: [PATCH 15/35] fix: scale_load failed on index types, kept option
 changes and truncated integer targets

---
 pypower/scale_load.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 60fa8d2..41765f8 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -79,6 +79,8 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         load_zone = array([], int)
     if opt is None:
         opt = {}
+    else:
+        opt = opt.copy()
 
     ## fill out and check opt
     if len(gen) == 0:
@@ -110,7 +112,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(int), (e2i[gbus], arange(ng))), (nb, ng))
     else:
         ng = 0
         ld = array([], int)
@@ -118,7 +120,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     if len(load_zone) == 0:
         if len(load) == 1:        ## make a single zone of all load buses
             load_zone = zeros(nb, int)             ## initialize
-            load_zone[bus[:, PD] != 0 or bus[:, QD] != 0] = 1  ## FIXED loads
+            load_zone[(bus[:, PD] != 0) | (bus[:, QD] != 0)] = 1  ## FIXED loads
             if len(gen) > 0:
                 gbus = gen[ld, GEN_BUS].astype(int)
                 load_zone[e2i[gbus]] = 1    ## DISPATCHABLE loads
@@ -130,7 +132,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         stderr.write('scale_load: load vector must have a value for each load zone specified\n')
 
     ##-----  compute scale factors for each zone  -----
-    scale = load.copy()
+    scale = array(load, float)
     Pdd = zeros(nb)     ## dispatchable P at each bus
     if opt["scale"][0] == 'Q':  ## 'QUANTITY'
         ## find load capacity from dispatchable loads
-- 
2.43.0


From 396391fb65eefebf7a85d17cfb953d5d835d6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 16/35] fix: e2i_data and i2e_data reorder sparse data

Assembling the reordered blocks of a sparse matrix passed several arguments to
vstack/hstack wrongly or kept the original matrix, so sparse A and N were never
converted between external and internal ordering.
---
 pypower/e2i_data.py |  4 ++--
 pypower/i2e_data.py | 12 +++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pypower/e2i_data.py b/pypower/e2i_data.py
index c8de659..a359f9c 100644
--- a/pypower/e2i_data.py
+++ b/pypower/e2i_data.py
@@ -84,9 +84,9 @@ def e2i_data(ppc, val, ordering, dim=0):
 
         if issparse(new_v[0]):
             if dim == 0:
-                vstack(new_v, 'csr')
+                val = vstack(new_v, 'csr')
             elif dim == 1:
-                hstack(new_v, 'csr')
+                val = hstack(new_v, 'csr')
             else:
                 raise ValueError('dim (%d) may be 0 or 1' % dim)
         else:
diff --git a/pypower/i2e_data.py b/pypower/i2e_data.py
index 2620d54..1687af6 100644
--- a/pypower/i2e_data.py
+++ b/pypower/i2e_data.py
@@ -5,6 +5,7 @@
 import sys
 
 from numpy import arange, concatenate
+from scipy.sparse import issparse, vstack, hstack
 
 from pypower.get_reorder import get_reorder
 from pypower.set_reorder import set_reorder
@@ -88,6 +89,15 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
         if ni > bi:              ## the rest
             v = get_reorder(val, arange(bi, ni), dim)
             new_v.append(v)
-        val = concatenate(new_v, dim)
+
+        if issparse(new_v[0]):
+            if dim == 0:
+                val = vstack(new_v, 'csr')
+            elif dim == 1:
+                val = hstack(new_v, 'csr')
+            else:
+                raise ValueError('dim (%d) may be 0 or 1' % dim)
+        else:
+            val = concatenate(new_v, dim)
 
     return val
-- 
2.43.0


From f82664695427aa2629725fae012c6060ba43f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 17/35] fix: e2i_field and i2e_field descend into nested fields

The walk through a nested field updated its position only when a level was
missing, so paths of three levels or a second field of one structure failed.
---
 pypower/e2i_field.py | 2 +-
 pypower/i2e_field.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_field.py b/pypower/e2i_field.py
index c458190..362e69a 100644
--- a/pypower/e2i_field.py
+++ b/pypower/e2i_field.py
@@ -55,7 +55,7 @@ def e2i_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_ext:
                 v_ext[fld] = {}
-                v_ext = v_ext[fld]
+            v_ext = v_ext[fld]
 
     exec('ppc["order"]["ext"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = e2i_data(ppc, ppc%s, ordering, dim)' % (key, key))
diff --git a/pypower/i2e_field.py b/pypower/i2e_field.py
index 67c46bd..345fa85 100644
--- a/pypower/i2e_field.py
+++ b/pypower/i2e_field.py
@@ -47,7 +47,7 @@ def i2e_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_int:
                 v_int[fld] = {}
-                v_int = v_int[fld]
+            v_int = v_int[fld]
 
     exec('ppc["order"]["int"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = i2e_data(ppc, ppc%s, ppc["order"]["ext"]%s, ordering, dim)' %
-- 
2.43.0


From 961f9d402c55f1b886e28a63ddec44a9e7b1f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 18/35] fix: int2ext1 compares areas with None by identity

areas != None is an elementwise comparison and raises for arrays.
---
 pypower/int2ext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/int2ext.py b/pypower/int2ext.py
index c06dd4d..a13334e 100644
--- a/pypower/int2ext.py
+++ b/pypower/int2ext.py
@@ -137,7 +137,7 @@ def int2ext1(i2e, bus, gen, branch, areas):
     branch[:, F_BUS] = i2e[ branch[:, F_BUS].astype(int) ]
     branch[:, T_BUS] = i2e[ branch[:, T_BUS].astype(int) ]
 
-    if areas != None and len(areas) > 0:
+    if areas is not None and len(areas) > 0:
         areas[:, PRICE_REF_BUS] = i2e[ areas[:, PRICE_REF_BUS].astype(int) ]
         return bus, gen, branch, areas
 
-- 
2.43.0


From c574c171b7dcd7dbe9677e1a37d0de750684b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 19/35] fix: set_reorder keeps fractions when the new values
 are integers

The array was cast to the type of the new values, which truncates real data
that is to be kept.
---
 pypower/set_reorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/set_reorder.py b/pypower/set_reorder.py
index fb76e43..5942435 100644
--- a/pypower/set_reorder.py
+++ b/pypower/set_reorder.py
@@ -5,7 +5,7 @@
 """Assigns B to A with one of the dimensions of A indexed.
 """
 
-from numpy import ndim
+from numpy import ndim, result_type
 
 
 def set_reorder(A, B, idx, dim=0):
@@ -20,7 +20,7 @@ def set_reorder(A, B, idx, dim=0):
     """
     A = A.copy()
     ndims = ndim(A)
-    A = A.astype(B.dtype)
+    A = A.astype(result_type(A.dtype, B.dtype))
     if ndims ==  1:
         A[idx] = B
     elif ndims == 2:
-- 
2.43.0


From 67abf76e05333f16a5e496be2ffe176f9b652940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 20/35] fix: saved cases with infinite limits or padded cost
 rows can be written and loaded back

---
 pypower/savecase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index f370557..7c0818f 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -159,6 +159,7 @@ def savecase(fname, ppc, comment=None, version='2'):
         else:
             fd.write('def %s():\n' % basename(rootname))
             prefix = 'ppc'
+        fd.write('%sfrom numpy import array, inf, nan\n' % indent)
         if comment:
             if isinstance(comment, basestring):
                 fd.write('#%s\n' % comment)
@@ -283,7 +284,7 @@ def savecase(fname, ppc, comment=None, version='2'):
                     template = template + ', %.9g'
                 template = template + '],\n'
                 for i in range(gencost.shape[0]):
-                    fd.write(template % ((indent2,) + tuple(gencost[i])))
+                    fd.write(template % ((indent2,) + tuple(gencost[i, :n + 4])))
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-- 
2.43.0


From ddf4be5fb57c0a9ee3d06af0e79aef9385b1a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 21/35] fix: version 1 results keep every column when converted
 to version 2

---
 pypower/loadcase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index b5c5436..1b80e3e 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -243,8 +243,8 @@ def ppc_1to2(gen, branch):
 
     ## add extra columns to gen
     tmp = zeros((gen.shape[0], shift))
-    if gen.shape[1] >= mu_Qmin:
-        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin] ]
+    if gen.shape[1] >= mu_Qmin + 1:
+        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin + 1] ]
     else:
         gen = c_[ gen[:, 0:PMIN + 1], tmp ]
 
@@ -257,10 +257,10 @@ def ppc_1to2(gen, branch):
     ## add extra columns to branch
     tmp = ones((branch.shape[0], 1)) * array([-360, 360])
     tmp2 = zeros((branch.shape[0], 2))
-    if branch.shape[1] >= mu_St - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:MU_ST + 1], tmp2 ]
-    elif branch.shape[1] >= QT - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:QT + 1] ]
+    if branch.shape[1] >= mu_St + 1:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:mu_St + 1], tmp2 ]
+    elif branch.shape[1] >= Qt + 1:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:Qt + 1] ]
     else:
         branch = c_[ branch[:, 0:BR_STATUS + 1], tmp ]
 
-- 
2.43.0


From b87f94ab695cfa5fde9ef969bdf5667f71325004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 22/35] fix: base MVA of a MAT-file case is loaded as a number

---
 pypower/loadcase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 1b80e3e..29dbc44 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -100,7 +100,7 @@ def loadcase(casefile,
                         for k, v in d.items():
                             s[k] = v
 
-                    s['baseMVA'] = s['baseMVA'][0]  # convert array to float
+                    s['baseMVA'] = s['baseMVA'].item()  # convert array to float
 
                 except IOError as e:
                     info = 3
-- 
2.43.0


From 0dc20a35d0c218791d3490e4b10380b422f9b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:18 +0000
Subject: [PATCH 23/35] fix: user costs given without the optional matrix H

---
 pypower/opf_args.py  | 2 +-
 pypower/opf_setup.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index fa4788a..d709154 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -316,7 +316,7 @@ def opf_args(*args):
         if not issparse(N):
             stderr.write('opf_args.m: N must be sparse in generalized cost '
                          'parameters\n')
-        if not issparse(H):
+        if H is not None and not issparse(H):
             stderr.write('opf_args.m: H must be sparse in generalized cost parameters\n')
 
     if Au is not None and not issparse(Au):
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index 07e945b..dc0d7ed 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -254,8 +254,8 @@ def opf_setup(ppc, ppopt):
             user_cost['kk'] = fparm[:, 2]
             user_cost['mm'] = fparm[:, 3]
 
-#        if len(H) > 0:
-        user_cost['H'] = H
+        if H is not None:
+            user_cost['H'] = H
 
         om.add_costs('usr', user_cost, user_vars)
 
-- 
2.43.0


From 9e233bf876e544f22906be1ec084dcf0f3f3da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:34 +0000
Subject: [PATCH 24/35] fix: the constant term of the DC OPF cost left out the
 shift of linear user costs

---
 pypower/dcopf_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index b3bc303..85c0ccb 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -179,7 +179,7 @@ def dcopf_solver(om, ppopt, out_opt=None):
     MN = M * NN
     HH = MN.T * HHw * MN
     CC = MN.T * (CCw - HMR)
-    C0 = 0.5 * dot(MR, HMR) + sum(polycf[:, 2])  # Constant term of cost.
+    C0 = dot(MR, 0.5 * HMR - CCw) + sum(polycf[:, 2])  # Constant term of cost.
 
     ## set up input for QP solver
     opt = {'alg': alg, 'verbose': verbose}
-- 
2.43.0


From dd9d9c46d89937ef40759f47a1c2cc68fad3285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:28 +0000
Subject: [PATCH 25/35] fix: OPF results kept the angle-limit multipliers of an
 earlier run for branches without angle limits

---
 pypower/opf_execute.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 8196512..23e2afc 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -132,6 +132,7 @@ def opf_execute(om, ppopt):
             del results['g']
 
         ## angle limit constraint multipliers
+        results['branch'][:, [MU_ANGMIN, MU_ANGMAX]] = 0
         if ll['N']['ang'] > 0:
             iang = om.userdata('iang')
             results['branch'][iang, MU_ANGMIN] = results['mu']['lin']['l'][ll['i1']['ang']:ll['iN']['ang']] * pi / 180
-- 
2.43.0


From 59925f199070f55a150b3f137dfd9feb4dec9d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:09 +0000
Subject: [PATCH 26/35] fix: OPF failed when capability curves slope on one
 side only

---
 pypower/makeApq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeApq.py b/pypower/makeApq.py
index eb90a78..d91e8ff 100644
--- a/pypower/makeApq.py
+++ b/pypower/makeApq.py
@@ -67,7 +67,7 @@ def makeApq(baseMVA, gen):
                       (npqh, 2*ng))
         ubpqh = ubpqh / baseMVA
     else:
-        data["h"] = array([])
+        data["h"] = zeros((0, 2))
         Apqh  = zeros((0, 2*ng))
         ubpqh = array([])
 
@@ -86,7 +86,7 @@ def makeApq(baseMVA, gen):
                       (npql, 2*ng))
         ubpql = ubpql / baseMVA
     else:
-        data["l"] = array([])
+        data["l"] = zeros((0, 2))
         Apql  = zeros((0, 2*ng))
         ubpql = array([])
 
-- 
2.43.0


From e16520337bddecd3b7daa370468c9c693df02ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:40 +0000
Subject: [PATCH 27/35] fix: add_userfcn accepts any value as the callback's
 argument

---
 pypower/add_userfcn.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index 0c6ad70..ef1af84 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -87,9 +87,6 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    if args is None:
-        args = []
-
     if stage not in ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']:
         stderr.write('add_userfcn : \'%s\' is not the name of a valid callback stage\n' % stage)
 
@@ -107,7 +104,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
         ppc['userfcn'] = {stage: []}
 
     ppc['userfcn'][stage].append({'fcn': fcn})
-    if len(args) > 0:
+    if args is not None:
         ppc['userfcn'][stage][n]['args'] = args
 
     return ppc
-- 
2.43.0


From 95e86b8e5579df1d65ace4abd3f32126145d040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:16 +0000
Subject: [PATCH 28/35] fix: interface limits keep branches whose internal
 index is 0, rows of the limits table in any order, and the given map

---
 pypower/toggle_iflims.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 5328f28..f925584 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -9,7 +9,7 @@ from sys import stderr
 
 from pprint import pprint
 
-from numpy import zeros, arange, unique, sign, delete, flatnonzero as find
+from numpy import c_, zeros, ones, arange, where
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -93,15 +93,13 @@ def userfcn_iflims_ext2int(ppc, *args):
     ppc['order']['ext']['ifmap'] = ifmap
 
     ##-----  convert stuff to internal indexing  -----
-    e2i = zeros(nl0)
+    e2i = -ones(nl0, int)
     e2i[o['branch']['status']['on']] = arange(nl)  ## ext->int branch index mapping
-    d = sign(ifmap[:, 1])
-    br = abs(ifmap[:, 1]).astype(int)
-    ifmap[:, 1] = d * e2i[br]
+    d = where(ifmap[:, 1] < 0, -1, 1)
+    br = e2i[abs(ifmap[:, 1]).astype(int)]
 
-    ifmap = delete(ifmap, find(ifmap[:, 1] == 0), 0)  ## delete branches that are out
-
-    ppc['if']['map'] = ifmap
+    ## the direction gets a column of its own (there is no -0)
+    ppc['if']['map'] = c_[ifmap[:, 0].astype(int), br, d][br >= 0]  ## delete branches that are out
 
     return ppc
 
@@ -123,19 +121,17 @@ def userfcn_iflims_formulation(om, *args):
     n = Bf.shape[1]                    ## dim of theta
 
     ## form constraints
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]           ## interface number list
     nifs = len(ifidx)              ## number of interfaces
     Aif = lil_matrix((nifs, n))
     lif = zeros(nifs)
     uif = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
+        br, d = ifmap[ifmap[:, 0] == ifidx[k], 1:].T
         if len(br) == 0:
             stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % k)
 
-        d = sign(br)
-        br = abs(br)
         Ak = sparse((1, n))              ## Ak = sum( d(i) * Bf(i, :) )
         bk = 0                           ## bk = sum( d(i) * Pfinj(i) )
         for i in range(len(br)):
@@ -168,14 +164,12 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['map'] = results['order']['ext']['ifmap']
 
     ##-----  results post-processing  -----
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]        ## interface number list
     nifs = len(ifidx)           ## number of interfaces
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
-        d = sign(br)
-        br = abs(br)
+        br, d = ifmap[ifmap[:, 0] == ifidx[k], 1:].T
         results['if']['P'][k] = sum( d * results['branch'][br, PF] )
 
     if 'mu' not in results['if']:
@@ -204,10 +198,8 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         fd.write('\n Interface  Shadow Prc  Lower Lim      Flow      Upper Lim   Shadow Prc')
         fd.write('\n     #        ($/MW)       (MW)        (MW)        (MW)       ($/MW)   ')
         fd.write('\n----------  ----------  ----------  ----------  ----------  -----------')
-        ifidx = unique(iflims[:, 0])   ## interface number list
-        nifs = len(ifidx)           ## number of interfaces
-        for k in range(nifs):
-            fd.write('\n%6d ', iflims(k, 1))
+        for k in range(iflims.shape[0]):
+            fd.write('\n%6d ' % iflims[k, 0])
             if results['if']['mu']['l'][k] > ptol:
                 fd.write('%14.3f' % results['if']['mu']['l'][k])
             else:
-- 
2.43.0


From b8c18cbd014b670e402fbfca71df1696ca2ba922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:47 +0000
Subject: [PATCH 29/35] fix: fairmax indexes the positions of the maximum
 instead of calling them

---
 pypower/fairmax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/fairmax.py b/pypower/fairmax.py
index 3b27c06..e31a17e 100644
--- a/pypower/fairmax.py
+++ b/pypower/fairmax.py
@@ -6,7 +6,7 @@
 """
 
 from random import random
-from numpy import nonzero, fix
+from numpy import nonzero
 
 
 def fairmax(x):
@@ -23,8 +23,8 @@ def fairmax(x):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     val = max(x)                      ## find max value
-    i   = nonzero(x == val)           ## find all positions where this occurs
+    i   = nonzero(x == val)[0]        ## find all positions where this occurs
     n   = len(i)                      ## number of occurences
-    idx = i( fix(n * random()) + 1 )  ## select index randomly among occurances
+    idx = i[int(n * random())]        ## select index randomly among occurances
 
     return val, idx
-- 
2.43.0


From 28771e0344e779bc1e26e7ec4e5797624e3e9893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:01 +0000
Subject: [PATCH 30/35] fix: uopf only decommits units with a positive minimum
 output to fit the load

---
 pypower/uopf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index 7284644..1dbe0bb 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -59,10 +59,13 @@ def uopf(*args):
     load_capacity = sum(ppc["bus"][:, PD]) - sum(ppc["gen"][onld, PMIN])   ## total load capacity
     Pmin = ppc["gen"][on, PMIN]
     while sum(Pmin) > load_capacity:
-        ## shut down most expensive unit
-        avgPmincost = totcost(ppc["gencost"][on, :], Pmin) / Pmin
+        ## shut down most expensive unit, of those with a positive Pmin
+        pos = find(Pmin > 0)
+        if len(pos) == 0:
+            break
+        avgPmincost = totcost(ppc["gencost"][on[pos], :], Pmin[pos]) / Pmin[pos]
         _, i = fairmax(avgPmincost)   ## pick one with max avg cost at Pmin
-        i = on[i]                     ## convert to generator index
+        i = on[pos[i]]                ## convert to generator index
 
         if verbose:
             print('Shutting down generator %d so all Pmin limits can be satisfied.\n' % i)
-- 
2.43.0


From e55b1befd991ace9f8aacdb15809e3de62a5ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:27 +0000
Subject: [PATCH 31/35] fix: toggle_dcline maps terminal buses by integer index
 and builds the costs of DC lines

---
 pypower/toggle_dcline.py | 45 ++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index a75dbcc..1c1f0af 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -20,7 +20,7 @@ from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
     VG, QMIN, QMAX, MU_QMIN, MU_PMAX, MU_PMIN, MU_QMAX
 
 from pypower.idx_bus import BUS_TYPE, REF, PV
-from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST
+from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST, COST
 
 
 def toggle_dcline(ppc, on_off):
@@ -129,8 +129,10 @@ def userfcn_dcline_ext2int(ppc, args):
     o = ppc['order']
 
     ##-----  convert stuff to internal indexing  -----
-    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']]]
-    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']]]
+    fbus = o['bus']['e2i'][dc[:, c['F_BUS']].astype(int)].astype(int)
+    tbus = o['bus']['e2i'][dc[:, c['T_BUS']].astype(int)].astype(int)
+    dc[:, c['F_BUS']] = fbus
+    dc[:, c['T_BUS']] = tbus
     ppc['dcline'] = dc
 
     ##-----  create gens to represent DC line terminals  -----
@@ -181,8 +183,8 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ## set all terminal buses to PV (except ref bus)
     refbus = find(ppc['bus'][:, BUS_TYPE] == REF)
-    ppc['bus'][dc[:, c['F_BUS']], BUS_TYPE] = PV
-    ppc['bus'][dc[:, c['T_BUS']], BUS_TYPE] = PV
+    ppc['bus'][fbus, BUS_TYPE] = PV
+    ppc['bus'][tbus, BUS_TYPE] = PV
     ppc['bus'][refbus, BUS_TYPE] = REF
 
     ## append dummy gens
@@ -193,39 +195,32 @@ def userfcn_dcline_ext2int(ppc, args):
         ngcr, ngcc = ppc['gencost'].shape   ## dimensions of gencost
         if havecost:         ## user has provided costs
             ndccc = dcc.shape[1]           ## number of dclinecost columns
-            ccc = max(r_[ngcc, ndccc])     ## number of columns in new gencost
+            ccc = max(ngcc, ndccc)         ## number of columns in new gencost
             if ccc > ngcc:                 ## right zero-pad gencost
-                ppc.gencost = c_[ppc['gencost'], zeros(ngcr, ccc-ngcc)]
+                ppc['gencost'] = c_[ppc['gencost'], zeros((ngcr, ccc - ngcc))]
 
             ## flip function across vertical axis and append to gencost
             ## (PF for DC line = -PG for dummy gen at "from" bus)
+            fgc = zeros((ndc, ccc))
+            fgc[:, :COST] = dcc[:, :COST]
             for k in range(ndc):
+                nc = int(dcc[k, NCOST])
                 if dcc[k, MODEL] == POLYNOMIAL:
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(nc + 1)]
+                    fgc[k, COST:COST + nc] = dcc[k, COST:COST + nc]
                     ## flip sign on coefficients of odd terms
                     ## (every other starting with linear term,
                     ##  that is, the next to last one)
-#                    temp((nc-1):-2:1) = -temp((nc-1):-2:1)
-                    temp[range(nc, 0, -2)] = -temp[range(nc, 0, -2)]
+                    for j in range(COST + nc - 2, COST - 1, -2):
+                        fgc[k, j] = -dcc[k, j]
                 else:  ## dcc(k, MODEL) == PW_LINEAR
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(2*nc + 1)]
                     ## switch sign on horizontal coordinate
-                    xx = -temp[range(0, 2 * nc + 1, 2)]
-                    yy =  temp[range(1, 2 * nc + 1, 2)]
-                    temp[range(0, 2*nc + 1, 2)] = xx[-1::-1]
-                    temp[range(1, 2*nc + 1, 2)] = yy[-1::-1]
-
-                padding = zeros(ccc - NCOST - len(temp))
-                gck = c_[dcc[k, :NCOST + 1], temp, padding]
-
-                ## append to gencost
-                ppc['gencost'] = r_[ppc['gencost'], gck]
+                    for j in range(nc):
+                        fgc[k, COST + 2 * j] = -dcc[k, COST + 2 * (nc - 1 - j)]
+                        fgc[k, COST + 2 * j + 1] = dcc[k, COST + 2 * (nc - 1 - j) + 1]
 
             ## use zero cost on "to" end gen
-            tgc = ones((ndc, 1)) * [2, 0, 0, 2, zeros(ccc-4)]
-            ppc['gencost'] = c_[ppc['gencost'], tgc]
+            tgc = ones((ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ccc - 4)])
+            ppc['gencost'] = r_[ppc['gencost'], fgc, tgc]
         else:
             ## use zero cost as default
             dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
-- 
2.43.0


From 58ab0ce539b72b4d0ab4bade2cb457fbf2496add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:27 +0000
Subject: [PATCH 32/35] fix: toggle_dcline puts its results back with
 out-of-service lines, without costs and for solved cases

---
 pypower/toggle_dcline.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 1c1f0af..f1acf52 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -288,7 +288,7 @@ def userfcn_dcline_int2ext(results, args):
 
     ## initialize some things
     o = results['order']
-    k = find(o['ext']['dcline'][:, c['BR_STATUS']])
+    k = o['ext']['status']['on']
     ndc = len(k)                    ## number of in-service DC lines
     ng  = results['gen'].shape[0] - 2*ndc; ## number of original gens/disp loads
 
@@ -300,7 +300,10 @@ def userfcn_dcline_int2ext(results, args):
     #results['gen']     = results['gen'][:ng + 1, :]
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
-    results['gencost'] = results['gencost'][:ng, :]
+    if 'gencost' in results and len(results['gencost']) > 0:
+        results['gencost'] = results['gencost'][:results['gencost'].shape[0] - 2 * ndc, :]
+    if 'dclinecost' in o['ext']:
+        results['dclinecost'] = o['ext']['dclinecost']
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
@@ -309,8 +312,9 @@ def userfcn_dcline_int2ext(results, args):
     results['dcline'][:, c['QT']] =  tg[:, QG]
     results['dcline'][:, c['VF']] =  fg[:, VG]
     results['dcline'][:, c['VT']] =  tg[:, VG]
-    if fg.shape[1] >= MU_QMIN:
-        results['dcline'] = c_[results['dcline'], zeros((ndc, 6))]
+    if fg.shape[1] > MU_QMIN:
+        if results['dcline'].shape[1] < c['MU_QMAXT'] + 1:
+            results['dcline'] = c_[results['dcline'], zeros((ndc, 6))]
         results['dcline'][:, c['MU_PMIN'] ] = fg[:, MU_PMAX] + tg[:, MU_PMIN]
         results['dcline'][:, c['MU_PMAX'] ] = fg[:, MU_PMIN] + tg[:, MU_PMAX]
         results['dcline'][:, c['MU_QMINF']] = fg[:, MU_QMIN]
@@ -318,13 +322,14 @@ def userfcn_dcline_int2ext(results, args):
         results['dcline'][:, c['MU_QMINT']] = tg[:, MU_QMIN]
         results['dcline'][:, c['MU_QMAXT']] = tg[:, MU_QMAX]
 
-    results['order']['int'] = {}
+    results['order'].setdefault('int', {})
     ##-----  convert stuff back to external indexing  -----
     results['order']['int']['dcline'] = results['dcline']  ## save internal version
     ## copy results to external version
     o['ext']['dcline'][k, c['PF']:c['VT'] + 1] = results['dcline'][:, c['PF']:c['VT'] + 1]
     if results['dcline'].shape[1] == c['MU_QMAXT'] + 1:
-        o['ext']['dcline'] = c_[o['ext']['dcline'], zeros((ndc, 6))]
+        if o['ext']['dcline'].shape[1] < c['MU_QMAXT'] + 1:
+            o['ext']['dcline'] = c_[o['ext']['dcline'], zeros((o['ext']['dcline'].shape[0], 6))]
         o['ext']['dcline'][k, c['MU_PMIN']:c['MU_QMAXT'] + 1] = \
                 results['dcline'][:, c['MU_PMIN']:c['MU_QMAXT'] + 1]
 
-- 
2.43.0


From 04d8a43b1fe38f0c57cf790a764162ed62ba367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:27 +0000
Subject: [PATCH 33/35] fix: toggle_dcline prints out-of-service lines and
 results without multipliers, and warns per line

---
 pypower/toggle_dcline.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index f1acf52..8b2682f 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -66,10 +66,10 @@ def toggle_dcline(ppc, on_off):
                 (ppc['dcline'].shape[0], ppc['dclinecost'].shape[0]))
 
         k = find(ppc['dcline'][:, c["LOSS1"]] < 0)
-        if len(k) > 0:
+        for i in k:
             warn('toggle_dcline: linear loss term is negative for DC line '
                    'from bus %d to %d\n' %
-                  ppc['dcline'][k, c['F_BUS']:c['T_BUS'] + 1].T)
+                  tuple(ppc['dcline'][i, c['F_BUS']:c['T_BUS'] + 1]))
 
         ## add callback functions
         ## note: assumes all necessary data included in 1st arg (ppc, om, results)
@@ -368,6 +368,8 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
     ##-----  print results  -----
     dc = results['dcline']
     ndc = dc.shape[0]
+    if dc.shape[1] < c['MU_QMAXT'] + 1:     ## no multipliers (e.g. power flow)
+        dc = c_[dc, zeros((ndc, c['MU_QMAXT'] + 1 - dc.shape[1]))]
     kk = find(dc[:, c['BR_STATUS']] != 0)
     if OUT_BRANCH:
         fd.write('\n================================================================================')
@@ -384,7 +386,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
                 loss = loss + dc[k, c['PF']] - dc[k, c['PT']]
             else:
                 fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                            (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                            (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n                                              ---------')
         fd.write('\n                                     Total:{0:11.2f}\n'.format(loss))
@@ -421,7 +423,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
 
                 else:
                     fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                                (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                                (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n')
 
-- 
2.43.0


From 5279a629442eaecec01f960762b3c807c1337229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:27 +0000
Subject: [PATCH 34/35] fix: the DC line formulation hands the model on to the
 next callback

---
 pypower/toggle_dcline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 8b2682f..df31d20 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -267,7 +267,7 @@ def userfcn_dcline_formulation(om, args):
     Adc = hstack([sparse((ndc, ng)), spdiags(1-L1, 0, ndc, ndc), speye(ndc, ndc)], format="csr")
 
     ## add them to the model
-    om = om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
+    om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
 
     return om
 
-- 
2.43.0


From 6a44688a38ea3f9d2402f6ae6220fb4b9bc84c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:27 +0000
Subject: [PATCH 35/35] fix: printpf turns limits off for the callbacks of a
 power flow by keyword

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 5464b53..8556465 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -685,5 +685,5 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     ## execute userfcn callbacks for 'printpf' stage
     if have_results_struct and 'userfcn' in results:
         if not isOPF:  ## turn off option for all constraints if it isn't an OPF
-            ppopt = ppoption(ppopt, 'OUT_ALL_LIM', 0)
+            ppopt = ppoption(ppopt, OUT_ALL_LIM=0)
         run_userfcn(results["userfcn"], 'printpf', results, fd, ppopt)
-- 
2.43.0

