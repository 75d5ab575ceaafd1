From 8ae3e2c23e9b31364e311aeb3133afdaf4d64132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 01/45] fix: account for deposits exceeding the top layer mass

Deposits larger than the mass of a bed layer were stored in the refilled
layers but subtracted from the pickup with the wrong sign, after which the
remaining exchange was discarded: layer masses could double and the bed
level did not rise.
---
 aeolis/bed.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index a71214d..60b0062 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -260,6 +260,10 @@ def update(s, p):
     # determine total mass that should be exchanged between layers
     dm = -np.sum(pickup, axis=-1, keepdims=True).repeat(nf, axis=-1)
     
+    # determine bed level change from the net exchange, before any deposits
+    # are stored in completely refilled layers
+    dz = dm[:,0].reshape((ny+1,nx+1)) / (p['rhog'] * (1. - p['porosity']))
+
     # get erosion and deposition cells
     ix_ero = dm[:,0] < 0.
     ix_dep = dm[:,0] > 0.
@@ -310,7 +314,6 @@ def update(s, p):
     # update bathy
     if p['process_bedupdate']:
 
-        dz = dm[:, 0].reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
         # s['dzb'] = dm[:, 0].reshape((ny + 1, nx + 1))
         s['dzb'] = dz.copy()
 
@@ -437,15 +440,16 @@ def prevent_negative_mass(m, dm, pickup):
             m[ix,i,:] = mx[ix,:].repeat(nf, axis=1) * d[ix,:]
 
             # remove deposited sediment from pickup
-            pickup[ix,:] -= m[ix,i,:]
+            pickup[ix,:] += m[ix,i,:]
 
         # discard any remaining deposits at locations where all layers
         # are filled with fresh deposits
-        ix = (dm[:,:1] > mx).flatten()
+        ix = -np.sum(pickup, axis=-1) > mx[:,0]
         if np.any(ix):
             pickup[ix,:] = 0.
 
         # recompute sediment exchange mass
+        ix = (n > 0).flatten()
         dm[ix,:] = -np.sum(pickup[ix,:], axis=-1, keepdims=True).repeat(nf, axis=-1)
 
     return m, dm, pickup
-- 
2.43.0


From 7381d79efbce7bc2e6b9e5f7fe7f317268e0df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 02/45] fix: use the matrix coefficients of the row itself for
 the next alongshore cell

The diagonals that couple a cell to its neighbour at the next alongshore
position were shifted by one grid row, so that with wind in negative
alongshore direction the coefficients of a different cell were used and
sediment was not conserved if the wind varies alongshore.
---
 aeolis/model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 0759995..cd7032a 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -911,14 +911,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1282,14 +1282,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1616,12 +1616,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
@@ -2025,12 +2025,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
-- 
2.43.0


From 0b24d75662da9cd69107ede467577b372a8e12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 03/45] fix: use the velocity across the circular lateral
 boundary

Sediment that leaves the grid through a circular lateral boundary has to
enter it at the other side with the velocity with which it left.
---
 aeolis/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index cd7032a..2a6ea38 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -792,6 +792,10 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:] = s['un'][-1,:,i]
+                un_min[-1,:] = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
@@ -1163,6 +1167,10 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:] = s['un'][-1,:,i]
+                un_min[-1,:] = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
-- 
2.43.0


From 162d039e2dab85c74f339ac6e6028b8df3eb6e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 04/45] fix: close the circular lateral boundary in the pieter
 steady state solver

The concentration at the last lateral face was left zero, such that the
sediment entering at the first row never left the last row.
---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 2a6ea38..e6773b5 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1667,6 +1667,7 @@ class AeoLiS(IBmi):
                 if p['boundary_lateral'] == 'circular':
                     Ctxfn_i[0,:] = ixfn[0,:] * Ct[-1,:,i] \
                                     + (1. - ixfn[0,:]) *  Ct[0,:,i] 
+                    Ctxfn_i[-1,:] = Ctxfn_i[0,:]
                 
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * Ct[:,:,i]                                          
-- 
2.43.0


From e3b02a62731a929de0c8d19c39a90521045da0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 05/45] fix: let the onshore boundary follow its own no-flux
 setting

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index e6773b5..5cd7c4f 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1247,7 +1247,7 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown offshore boundary condition [%s]' % self.p['boundary_offshore'], exc=ValueError)
 
-            if (p['boundary_onshore'] == 'flux') | (p['boundary_offshore'] == 'noflux'):                              
+            if (p['boundary_onshore'] == 'flux') | (p['boundary_onshore'] == 'noflux'):                              
                 Am2[:,-1] = 0.
                 Am1[:,-1] = 0.            
             elif p['boundary_onshore'] == 'constant':                              
-- 
2.43.0


From ed600f2ed55abc4aff2886475ed4f4cd6e7f87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 06/45] fix: conserve sediment in one-dimensional runs with
 oblique wind

The alongshore outflow of a cell was part of the matrix diagonal, but the
inflow through the opposite, circular, lateral boundary was not part of
the one-dimensional matrix.
---
 aeolis/model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5cd7c4f..1790fc6 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -926,9 +926,10 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
+                # the single row is its own neighbour
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (A0 + Amx + Apx).flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2]),
                                        (-2,-1,0,1,2), format='csr')
@@ -1301,9 +1302,10 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
+                # the single row is its own neighbour
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (A0 + Amx + Apx).flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2]),
                                        (-2,-1,0,1,2), format='csr')
@@ -1635,8 +1637,9 @@ class AeoLiS(IBmi):
             else:
                 j = p['nx']+1
                 ny = 0
+                # the single row is its own neighbour
                 A = scipy.sparse.diags((Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (A0 + Amx + Apx).flatten(),
                                         Ap1.flatten()[:-1]),
                                        (-1, 0, 1), format='csr')
 
@@ -2043,8 +2046,9 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
+                # the single row is its own neighbour
                 A = scipy.sparse.diags((Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (A0 + Amx + Apx).flatten(),
                                         Ap1.flatten()[:-1]),
                                        (-1,0,1), format='csr')
 
-- 
2.43.0


From c8217577edf9f1a16aaf560cfdf9a091cd9e592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 07/45] fix: leave no negative concentrations when negative
 values prevail

---
 aeolis/model.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 1790fc6..1d9d530 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -988,7 +988,11 @@ class AeoLiS(IBmi):
                                               coords=np.argwhere(ix.reshape(y_i.shape)),
                                               **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    # there is nothing left if the negative values prevail
+                    if Ct_i.sum() > 0.:
+                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    else:
+                        Ct_i[~ix] = 0.
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -1383,7 +1387,8 @@ class AeoLiS(IBmi):
                                               coords=np.argwhere(ix.reshape(y_i.shape)),
                                               **logprops))
 
-                    if Ct_i[~ix].sum() != 0:
+                    # there is nothing left if the negative values prevail
+                    if Ct_i.sum() > 0:
                         Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
                     else:
                         Ct_i[~ix] = 0
@@ -1767,7 +1772,11 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    # there is nothing left if the negative values prevail
+                    if Ct_i.sum() > 0.:
+                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    else:
+                        Ct_i[~ix] = 0.
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -2185,7 +2194,11 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    # there is nothing left if the negative values prevail
+                    if Ct_i.sum() > 0.:
+                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    else:
+                        Ct_i[~ix] = 0.
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
-- 
2.43.0


From 24a4724b46ef36e406da7b691d4d9b0f0f47dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 08/45] fix: do not carry the undisturbed equilibrium
 concentration over from previous steps

---
 aeolis/transport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 84a43d8..fc9e196 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -312,6 +312,7 @@ def equilibrium(s, p):
         
         s['Cu']  = np.zeros(uth.shape)
         s['Cuf'] = np.zeros(uth.shape)
+        s['Cu0'] = np.zeros(uth.shape)
     
                 
         ix = (ustar != 0.)*(u != 0.)
-- 
2.43.0


From 7818f08de049a65990d13751e726114da50bc147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 09/45] fix: let transport formulation bagnold_gs run on
 two-dimensional grids

---
 aeolis/transport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index fc9e196..03dd9a6 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -325,7 +325,7 @@ def equilibrium(s, p):
             
         elif p['method_transport'].lower() == 'bagnold_gs':
             Dref = 0.000250
-            d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1)
+            d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1).repeat(p['ny']+1, axis=0)
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             
-- 
2.43.0


From f78b01f6850f4d4aa540adfbb293c32d0efbe96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 10/45] fix: use their own shear velocity and threshold for Cuf
 and Cu0 in bagnold_gs and vanrijn_strypsteen

---
 aeolis/transport.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 03dd9a6..09b400e 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -327,9 +327,9 @@ def equilibrium(s, p):
             Dref = 0.000250
             d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1).repeat(p['ny']+1, axis=0)
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
-            s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
+            s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uthf[ix])**3 / u[ix])
             
-            s['Cu0'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
+            s['Cu0'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar0[ix] - uth0[ix])**3 / u[ix])
         
         elif p['method_transport'].lower() == 'kawamura':
             s['Cu'][ix]  = np.maximum(0., p['Ck'] * rhoa / g * (ustar[ix] + uth[ix])**2 * (ustar[ix] - uth[ix]) / u[ix])
@@ -354,7 +354,7 @@ def equilibrium(s, p):
          
         elif p['method_transport'].lower() == 'vanrijn_strypsteen':
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * rhoa / g * ((ustar[ix])**3 - (uth[ix])**3) / u[ix])
-            s['Cuf'][ix] = np.maximum(0., p['Cb'] * rhoa / g * ((ustar[ix])**3 - (uth[ix])**3) / u[ix])
+            s['Cuf'][ix] = np.maximum(0., p['Cb'] * rhoa / g * ((ustar[ix])**3 - (uthf[ix])**3) / u[ix])
             
             s['Cu0'][ix] = np.maximum(0., p['Cb'] * rhoa / g * ((ustar0[ix])**3 - (uth0[ix])**3) / u[ix])
         
-- 
2.43.0


From 163c74f8de9d2a6816c42472cb76f1dd3546cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 11/45] fix: compute the undisturbed equilibrium concentration
 in the kawamura and lettau formulations

---
 aeolis/transport.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 09b400e..9f0aaea 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -334,11 +334,15 @@ def equilibrium(s, p):
         elif p['method_transport'].lower() == 'kawamura':
             s['Cu'][ix]  = np.maximum(0., p['Ck'] * rhoa / g * (ustar[ix] + uth[ix])**2 * (ustar[ix] - uth[ix]) / u[ix])
             s['Cuf'][ix] = np.maximum(0, p['Ck'] * rhoa / g * (ustar[ix] + uthf[ix])**2 * (ustar[ix] - uthf[ix]) / u[ix])
+
+            s['Cu0'][ix] = np.maximum(0., p['Ck'] * rhoa / g * (ustar0[ix] + uth0[ix])**2 * (ustar0[ix] - uth0[ix]) / u[ix])
         
         elif p['method_transport'].lower() == 'lettau':
             s['Cu'][ix]  = np.maximum(0., p['Cl'] * rhoa / g * ustar[ix]**2 * (ustar[ix] - uth[ix]) / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cl'] * rhoa / g * ustar[ix]**2 * (ustar[ix] - uthf[ix]) / u[ix])
 
+            s['Cu0'][ix] = np.maximum(0., p['Cl'] * rhoa / g * ustar0[ix]**2 * (ustar0[ix] - uth0[ix]) / u[ix])
+
         elif p['method_transport'].lower() == 'dk':
             s['Cu'][ix]  = np.maximum(0., p['Cdk'] * rhoa / g * 0.8*uth[ix] * (ustar[ix]**2 - (0.8*uth[ix])**2) / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cdk'] * rhoa / g * 0.8*uthf[ix] * (ustar[ix]**2 - (0.8*uthf[ix])**2) / u[ix])
-- 
2.43.0


From 709f92a5a5e41d81934d4f087ff3f301926dc1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 12/45] fix: compute run-up of grids at the transition to
 dissipative conditions

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 620e629..cc07c1e 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -641,7 +641,7 @@ def calc_runup_stockdon(Ho, Tp, beta):
         sigma_s[i_iri] = 0.046 * np.sqrt(Ho[i_iri] * Lo[i_iri]) /2
         eta[i_iri] = R[i_iri] - sigma_s[i_iri]
 
-        i_iri = (Ho > 0) * (iribarren > 0.3)
+        i_iri = (Ho > 0) * (iribarren >= 0.3)
         nsigma = 2  # nsigma=1 for R16% and nsigma=2 for R2%
         eta[i_iri] = 0.35 * beta * np.sqrt(Ho[i_iri] * Lo[i_iri])
         sigma_s[i_iri] = np.sqrt(Ho[i_iri] * Lo[i_iri] * (0.563 * (beta * beta) + 0.0004)) * nsigma / 2 / 2
-- 
2.43.0


From 8dbae274fcff03be1cfca1ed05ba25f4cf22ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 13/45] fix: avalanching does not erode below the non-erodible
 layer

The flux of cells just above the layer was only limited where the gradient
exceeded the dynamic angle by more than the erodible depth, so that thin covers
were dug out to below the layer.
---
 aeolis/avalanching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 7d7cd3e..a06b258 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -139,8 +139,8 @@ def avalanche(s, p):
                 ix = np.logical_and(grad_h > tan_dyn, grad_h_nonerod > 0)
                 slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
                 
-                ix = grad_h_nonerod < grad_h - tan_dyn 
-                slope_diff[ix] = np.tanh(grad_h_nonerod[ix])				                    
+                # do not erode below the non-erodible layer
+                slope_diff = np.minimum(slope_diff, np.tanh(np.maximum(grad_h_nonerod, 0.)))
 
                 ix = grad_h != 0
                 
-- 
2.43.0


From 0f581cdc0fe4a704bc82cab7883aae8156c64f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 14/45] fix: avalanche without a non-erodible layer

Without ne_file the non-erodible layer is nan, every comparison with it is
false and avalanching silently did nothing.
---
 aeolis/avalanching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index a06b258..0565297 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -134,7 +134,8 @@ def avalanche(s, p):
 
                 # Calculation of flux
 
-                grad_h_nonerod = (s['zb'] - s['zne']) / s['ds'] # HAS TO BE ADJUSTED!    
+                # (without non-erodible layer, zne is nan and avalanching is not limited)
+                grad_h_nonerod = np.where(np.isnan(s['zne']), np.inf, (s['zb'] - s['zne']) / s['ds']) # HAS TO BE ADJUSTED!    
 				
                 ix = np.logical_and(grad_h > tan_dyn, grad_h_nonerod > 0)
                 slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
-- 
2.43.0


From 10c78439942a6e07632dc9b82d5921de4ccd1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 15/45] fix: keep the components of the undisturbed shear
 velocity

---
 aeolis/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index c4f51d9..962a2c9 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -136,8 +136,8 @@ def interpolate(s, p, t):
     s = velocity_stress(s,p)
         
     s['ustar0'] = s['ustar'].copy()
-    s['ustars0'] = s['ustar'].copy()
-    s['ustarn0'] = s['ustar'].copy()
+    s['ustars0'] = s['ustars'].copy()
+    s['ustarn0'] = s['ustarn'].copy()
         
     s['tau0'] = s['tau'].copy()
     s['taus0'] = s['taus'].copy()
-- 
2.43.0


From 641c481bd611db2234d1d14a18dc41b31b1c17ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 16/45] fix: total shear stress in the separation bubble (1D)

---
 aeolis/wind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 962a2c9..2771f6c 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -248,6 +248,7 @@ def shear(s,p):
             zsepdelta = np.minimum(np.maximum(1. - delta * s['hsep'], 0.), 1.)
             s['taus'] *= zsepdelta
             s['taun'] *= zsepdelta
+            s['tau'] = np.hypot(s['taus'], s['taun'])
             s = stress_velocity(s, p)
 
     # if p['process_nelayer']:
-- 
2.43.0


From 20dbfb3105c30a4339eeb03f34a21fbcd5f2136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 17/45] fix: default of the shear stress factor m used by
 th_sheltering

---
 aeolis/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index a1c0c33..34948e2 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -246,7 +246,7 @@ DEFAULT_CONFIG = {
     'Ck'                            : 2.78,               # [-] Constant in kawamura formulation for equilibrium sediment concentration
     'Cl'                            : 6.7,                # [-] Constant in lettau formulation for equilibrium sediment concentration
     'Cdk'                           : 5.,                 # [-] Constant in DK formulation for equilibrium sediment concentration
-    # 'm'                             : 0.5,                # [-] Factor to account for difference between average and maximum shear stress
+    'm'                               : 0.5,                # [-] Factor to account for difference between average and maximum shear stress
 #    'alpha'                         : 0.4,               # [-] Relation of vertical component of ejection velocity and horizontal velocity difference between impact and ejection
     'kappa'                         : 0.41,               # [-] Von Kármán constant
     'sigma'                         : 4.2,                # [-] Ratio between basal area and frontal area of roughness elements
-- 
2.43.0


From 9bc2eef23d8f6332df768fa6a5c1025e5438a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 18/45] fix: restore the grid orientation when a time step is
 skipped

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 1d9d530..9208213 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -291,6 +291,8 @@ class AeoLiS(IBmi):
         # determine optimal time step
         self.dt_prev = self.dt
         if not self.set_timestep(dt):
+            # time is updated, but no model execution is performed
+            self.s = self.grid_rotate(-self.p['alpha'])
             return
 
         # interpolate hydrodynamic time series
-- 
2.43.0


From 6955d36512e0f0d736aaedb0555b0f3221b55306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 19/45] fix: advance in time without wind in the explicit
 scheme

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 9208213..9171ee0 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -628,6 +628,7 @@ class AeoLiS(IBmi):
                     self.dt = np.minimum(self.dt, self.p['CFL'] / dtref)
                 else:
                     self.dt = np.minimum(self.dt, 1.)
+                    self.t += self.dt * self.p['accfac']
                     return False
            
         if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
-- 
2.43.0


From e0bd15ec9c73ee6665ee6c07e1a841badb7a979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 20/45] fix: limit the time step by the size of the bed level
 change, erosion included

---
 aeolis/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 9171ee0..5772c5c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -631,10 +631,11 @@ class AeoLiS(IBmi):
                     self.t += self.dt * self.p['accfac']
                     return False
            
-        if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
-            
-            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(self.s['dzb'])
-            self.dt = np.minimum(self.dt, dt_zb)
+        if self.p['max_bedlevel_change'] != 999. and self.dt_prev > 0.:
+            dzb_max = np.max(np.abs(self.s['dzb']))
+            if dzb_max != 0.:
+                dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / dzb_max
+                self.dt = np.minimum(self.dt, dt_zb)
             
         self.p['dt_opt'] = self.dt
 
-- 
2.43.0


From 7067512cef0bb1d44f07870ccaf3d1b306639adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 21/45] fix: first step of the model runner before any output
 is requested

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5772c5c..12972a4 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2429,6 +2429,7 @@ class AeoLiSRunner(AeoLiS):
 
         self.n = 0 # time step counter
         self.o = {} # output stats
+        self.clear = False # clear output stats at next step
 
         self.changed = False
         self.cwd = None
-- 
2.43.0


From 499e187cf1bebfe1df06e6457d207d277ecd80a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 22/45] fix: variables with an underscore in their name in
 get_var and output_vars

---
 aeolis/model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 12972a4..cc5706e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2657,8 +2657,11 @@ class AeoLiSRunner(AeoLiS):
 
         self.clear = clear
 
+        if var in self.s or var in self.p:
+            return super(AeoLiSRunner, self).get_var(var)
+
         if '_' in var:
-            var, stat = var.split('_')
+            var, stat = var.rsplit('_', 1)
             if var in self.o:
                 return self.get_statistic(var, stat)
 
@@ -2734,8 +2737,10 @@ class AeoLiSRunner(AeoLiS):
         # determine unique combinations of variables and types
         self.p['_output_vars'] = {}
         for var in self.p['output_vars']:
-            if '_' in var:
-                var0, ext = var.split('_')
+            if var in self.s:
+                var0, ext = var, None
+            elif '_' in var:
+                var0, ext = var.rsplit('_', 1)
             # TODO: delete in future release
             elif '.' in var:
                 warnings.warn('The use of "%s" is deprecated, use '
-- 
2.43.0


From 2601006a7de8a7a6d2cbb8709d7693804dc8eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 23/45] fix: statistics of q include the current step

---
 aeolis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index cc5706e..c59230b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2793,6 +2793,9 @@ class AeoLiSRunner(AeoLiS):
 
         '''
 
+        #also update the q variable here
+        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
+
         for k, exts in self.p['_output_vars'].items():
             v = self.get_var(k, clear=False).copy()
             if 'min' in exts:
@@ -2804,9 +2807,6 @@ class AeoLiSRunner(AeoLiS):
             if 'var' in exts:
                 self.o[k]['var'] = self.o[k]['var'] + v**2
 
-        #also update the q variable here
-        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
-
         self.n += 1
 
 
-- 
2.43.0


From 8f15256d804d4f213d15a30bcf3c338bb22c3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 24/45] fix: missing comma in the default output variables

---
 aeolis/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index 34948e2..fad4452 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -217,7 +217,7 @@ DEFAULT_CONFIG = {
     'output_vars'                   : ['zb', 'zs',
                                        'Ct', 'Cu',
                                        'uw', 'udir', 
-                                       'uth', 'mass'
+                                       'uth', 'mass',
                                        'pickup', 'w'],    # Names of spatial grids to be included in output
     'output_types'                  : [],                 # Names of statistical parameters to be included in output (avg, sum, var, min or max)
     'external_vars'                 : [],                 # Names of variables that are overwritten by an external (coupling) model, i.e. CoCoNuT
-- 
2.43.0


From e56611230ca0094df20a2fd5648427a6142f9fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 25/45] fix: write and read restart files in binary mode

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c59230b..272d673 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2885,7 +2885,7 @@ class AeoLiSRunner(AeoLiS):
         if restartfile:
             if os.path.exists(restartfile):
                 # Load model state
-                with open(restartfile, 'r') as fp:
+                with open(restartfile, 'rb') as fp:
                     state = pickle.load(fp)
 
                     self.t = state['t']
@@ -2906,7 +2906,7 @@ class AeoLiSRunner(AeoLiS):
         '''Dumps model state to restart file'''
 
         restartfile = '%s.r%010d' % (os.path.splitext(self.p['output_file'])[0], int(self.t))
-        with open(restartfile, 'w') as fp:
+        with open(restartfile, 'wb') as fp:
             pickle.dump({'t':self.t,
                          'p':self.p,
                          's':self.s,
-- 
2.43.0


From 0872ae4c84a1d0768ca01108fb1231de213b7228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 26/45] fix: immutable model state variables are kept by update

---
 aeolis/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 272d673..d21d701 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -109,6 +109,13 @@ class ModelState(dict):
             self.set_mutable(k)
 
 
+    def update(self, *args, **kwargs) -> None:
+        """sets multiple model state variables, except those that are immutable"""
+
+        for k, v in dict(*args, **kwargs).items():
+            self[k] = v
+
+
     def set_mutable(self, k:str) -> None:
         """Adds mutable variable to the model state"""
         self.ismutable.add(k)
-- 
2.43.0


From bf04c0fb50a14f88c01016f3796db364c26f6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 27/45] fix: model state can be read from a restart file,
 variables are mutable by default

---
 aeolis/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index d21d701..66924aa 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -93,10 +93,17 @@ class ModelState(dict):
     model state variable are ignored.
     """
 
+    def __new__(cls, *args, **kwargs):
+        """Create dictionary that accepts items before initialization (restart files)"""
+        obj = super(ModelState, cls).__new__(cls)
+        obj.ismutable = set()
+        return obj
+
+
     def __init__(self, *args, **kwargs) -> None:
         """Initialize dictionary for model states"""
-        self.ismutable = set()
         super(ModelState, self).__init__(*args, **kwargs)
+        self.ismutable = set(self.keys())
 
 
     def __setitem__(self, k:str, v:Any) -> None:
-- 
2.43.0


From db206547837051679ce4556911d0eef3a250c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 28/45] fix: number of vegetated neighbours does not replace
 the change in vegetation cover

---
 aeolis/vegetation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 6fc5832..112e462 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -121,9 +121,9 @@ def germinate(s,p):
     
     lat_veg = drhoveg > 0.
     
-    s['drhoveg'] = np.sum(lat_veg[:,:,:], 2)
+    n_lateral = np.sum(lat_veg[:,:,:], 2)
     
-    p_lateral = p_lateral_cell * s['drhoveg']
+    p_lateral = p_lateral_cell * n_lateral
     
     s['lateral'] += (random_prob <= p_lateral)
     s['lateral'] = np.minimum(s['lateral'], 1.)
-- 
2.43.0


From 07a8067c34befaf5feebdf291ec2e42c8d8dcce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 29/45] fix: vegetation cover grows with the actual time step

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 112e462..798efb4 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -154,7 +154,7 @@ def grow (s, p): #DURAN 2006
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
         else:
             s['drhoveg'][ix] = 0
-        s['rhoveg'] += s['drhoveg']*(p['dt']*p['accfac'])/(365.25 * 24 *3600)
+        s['rhoveg'] += s['drhoveg']*(p['dt_opt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
         s['rhoveg'][ixzero] = 0 #here only grow vegetation that already existed
-- 
2.43.0


From d264d7f4d91663d73f8d6131615916de21d3d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 30/45] fix: no growth of vegetation that has not germinated
 again

---
 aeolis/vegetation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 798efb4..b1a6fed 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -136,6 +136,7 @@ def grow (s, p): #DURAN 2006
     ix = np.logical_or(s['germinate'] != 0., s['lateral'] != 0.) * ( p['V_ver'] > 0.)
                                                     
     # Reduction of vegetation growth due to sediment burial
+    s['dhveg'][:,:] = 0.
     s['dhveg'][ix] = p['V_ver'] * (1 - s['hveg'][ix] / p['hveg_max']) - np.abs(s['dzbveg'][ix]-p['dzb_opt']) * p['veg_gamma']  # m/year
 
     # Adding growth
-- 
2.43.0


From 3b71bd5dd21b94e084b91cfa167c7cfd6d3cda00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 31/45] fix: bed composition file is used with an integer grain
 size distribution

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 60b0062..5765d79 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -83,7 +83,7 @@ def initialize(s, p):
     if isinstance(p['grain_dist'], str):
             logger.log_and_raise('Grain size file not recognized as array, check file path and whether all values have been filled in.', exc=ValueError) 
 
-    if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int': 
+    if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and (p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int'): 
         # Both float and int are included as options for the grain dist to make sure there is no error when grain_dist is filled in as 1 instead of 1.0. 
         for i in range(nl):
             gs = makeiterable(p['grain_dist'])
-- 
2.43.0


From f458ae573cd1e8268580b9574b419543a9a780fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 32/45] fix: boundary conditions of the groundwater do not
 change its previous level

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index cc07c1e..18ae185 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -251,7 +251,7 @@ def update(s, p, dt,t):
         #Specify wetting or drying conditions in previous timestep
         s['wetting'] = s['gw'] > s['gw_prev']
         #Save groundwater from previous timestep
-        s['gw_prev'] = s['gw']        
+        s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
         dt_gw = int(dt / p['tfac_gw'])
-- 
2.43.0


From 39dd40120e230cf59fd60baa9c8f166b74652736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 33/45] fix: seaward groundwater boundary in the cell before
 the shoreline of the transect itself

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 18ae185..060b6dc 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -423,7 +423,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     #Define seaward boundary gw=setup
     for i in range (len(GW[:,0])):
         GW[i,shl_ix[i]] = DSWL[i,shl_ix[i]]
-        GW[i,shl_ix[i-1]] = DSWL[i,shl_ix[i-1]]
+        GW[i,shl_ix[i]-1] = DSWL[i,shl_ix[i]-1]
     # GW[:,shl_ix] = s['DSWL'][:,shl_ix]
     # GW[:,shl_ix-1] = s['DSWL'][:,shl_ix-1]
 
-- 
2.43.0


From 382125a15b73c05442eef5775e65660e749da94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 34/45] fix: gradient in the nonlinear part of the Boussinesq
 equation

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 060b6dc..cd0bd92 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -459,7 +459,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     for i in range(len(a[:,0])):
         if shl_ix[i] < len(a[0,:]) - 3:   
             a[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]+1:-1] - 2 * GW[i,shl_ix[i]:-2] + GW[i,shl_ix[i]-1:-3]) / ds[i,shl_ix[i]:-2] ** 2
-            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] + GW[i,shl_ix[i]-1:-3])) / ds[i,shl_ix[i]:-2]                  
+            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] - GW[i,shl_ix[i]-1:-3])) / ds[i,shl_ix[i]:-2]                  
             c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4])/ds[i,shl_ix[i]+1:-3]
             dGW[i,shl_ix[i]+1:-3]=K_gw / ne_gw * (D_gw * a[i,shl_ix[i]+1:-3] + c[i,shl_ix[i]+1:-3])
 
-- 
2.43.0


From 436a4f25bf25a897bc4a872c7a783077c5bd2523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 35/45] fix: groundwater steps make up the whole time step,
 also a short one

---
 aeolis/hydro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index cd0bd92..03a4fb3 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -254,8 +254,9 @@ def update(s, p, dt,t):
         s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
-        dt_gw = int(dt / p['tfac_gw'])
-        for i in range(int(dt / dt_gw)):
+        n_gw = max(1, int(p['tfac_gw']))
+        dt_gw = dt / n_gw
+        for i in range(n_gw):
             t_gw = t + i * dt_gw
             interpolate(s,p,t_gw)
                 
-- 
2.43.0


From 752094397fbed3ba2a59be28f18d734f5a8d11e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 36/45] fix: groundwater in completely flooded transects

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 03a4fb3..8aec8df 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -458,7 +458,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
 
 
     for i in range(len(a[:,0])):
-        if shl_ix[i] < len(a[0,:]) - 3:   
+        if 0 < shl_ix[i] < len(a[0,:]) - 3:
             a[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]+1:-1] - 2 * GW[i,shl_ix[i]:-2] + GW[i,shl_ix[i]-1:-3]) / ds[i,shl_ix[i]:-2] ** 2
             b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] - GW[i,shl_ix[i]-1:-3])) / ds[i,shl_ix[i]:-2]                  
             c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4])/ds[i,shl_ix[i]+1:-3]
-- 
2.43.0


From 78fbd85cbc7b4b360e87da6cd90f12a7c749a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 37/45] fix: groundwater overheight when run-up floods the
 whole transect

---
 aeolis/hydro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 8aec8df..056216c 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -265,7 +265,8 @@ def update(s, p, dt,t):
             
 
             #Define index of runup limit
-            runup_ix =np.argmax(s['zb'] > s['TWL'],axis=1) - 1
+            above = s['zb'] > s['TWL']
+            runup_ix = np.where(np.any(above, axis=1), np.argmax(above, axis=1), s['zb'].shape[1]) - 1
             
             # Landward boundary condition
             if p['boundary_gw'].lower() == 'no_flow':
-- 
2.43.0


From f87dcc73f2b8f597840e29593bbee5890fdfef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 38/45] fix: total and dynamic water level without run-up
 follow the still water level

---
 aeolis/hydro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 056216c..ded4ca7 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -175,6 +175,11 @@ def interpolate(s, p, t):
             s['TWL'][:] = s['SWL'][:]  + s['R'][:]
             s['DSWL'][:] = s['SWL'][:] # + s['eta'][:]       # DSWL is actually provided by FM (?)
 
+    else:
+        # no run-up and no set-up
+        s['TWL'] = s['SWL'].copy()
+        s['DSWL'] = s['SWL'].copy()
+
 
     if p['process_wave'] and p['wave_file'] is not None:
 
-- 
2.43.0


From f0e72c917a5a5baddd80ece8d8a3cf9b79fbf2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 39/45] fix: no dune erosion, instead of an error, when the
 water rises above the dune toe without waves

---
 aeolis/erosion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/erosion.py b/aeolis/erosion.py
index ee51217..7d5f777 100644
--- a/aeolis/erosion.py
+++ b/aeolis/erosion.py
@@ -81,7 +81,7 @@ def run_ph12(s, p, t):
     for iy in range(ny + 1):
         twl = s['R'][iy][0] * Kd + wl
 
-        if twl > zToe:
+        if twl > zToe and s['sigma_s'][iy][0] > 0:
             x = s['x'][iy, :]
             zb = s['zb'][iy, :]
             eta = s['eta'][iy][0]
-- 
2.43.0


From 3327eb7e790bf493e96368e6d8d855a08105ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 40/45] fix: no pickup, flux and bed level change of earlier
 steps without wind

---
 aeolis/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 66924aa..086d933 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -346,6 +346,14 @@ class AeoLiS(IBmi):
             # calculate average bed level change over time
             self.s = aeolis.bed.average_change(self.l, self.s, self.p)
 
+        else:
+            # nothing is picked up or transported without wind, do not keep
+            # pickup, flux and bed level change of an earlier step
+            for var in ('pickup', 'qs', 'qn'):
+                self.s[var] = np.zeros(self.s[var].shape)
+
+            self.s = aeolis.bed.average_change(self.l, self.s, self.p)
+
         # compute dune erosion
         if self.p['process_dune_erosion']:
             self.s = aeolis.erosion.run_ph12(self.s, self.p, self.t)
-- 
2.43.0


From fa7a08753b57393e72b68b79a10c9f3896dafc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 41/45] fix: cell sizes in x- and y-direction of
 two-dimensional grids were exchanged

---
 aeolis/gridparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index a3ae3fa..185245a 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -200,8 +200,8 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
         s['ds'][:, 1:] = np.diff(s['x'], axis=1)
         s['ds'][:, 0] = s['ds'][:, 1]
     else:
-        s['dn'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
-        s['ds'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
+        s['ds'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
+        s['dn'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
          
     # compute cell areas
     s['dsdn'][:,:] = s['ds'] * s['dn']
-- 
2.43.0


From b39d2a50fc364205d70ce3e19a4ef23335d8c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 42/45] fix: orientation of grids with rows towards the second
 quadrant

---
 aeolis/gridparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index 185245a..91a9b55 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -188,7 +188,7 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
     else:
         p['alpha'] = np.rad2deg(np.arctan(dy/dx))
 
-    if dx <= 0 and dy <= 0:
+    if dx < 0 or (dx == 0 and dy <= 0):
         p['alpha'] += 180.
         
     # Rotate grids to allign with horizontal
-- 
2.43.0


From 6b159cd3b25d734cef4dab2455f7a90016c7852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 43/45] fix: positive cell sizes of transects in descending
 order

---
 aeolis/gridparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index 91a9b55..6ed3288 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -197,7 +197,7 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
     # initialize y-dimension
     if ny == 0:
         s['dn'][:,:] = 1.
-        s['ds'][:, 1:] = np.diff(s['x'], axis=1)
+        s['ds'][:, 1:] = np.abs(np.diff(s['x'], axis=1))
         s['ds'][:, 0] = s['ds'][:, 1]
     else:
         s['ds'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
-- 
2.43.0


From d813532e348c67a00b8e91746630111a29cfb6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 44/45] fix: wave numbers of the two-dimensional shear
 perturbation match the bed spectrum

---
 aeolis/shear.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index dd33ee5..f9443ce 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -544,8 +544,8 @@ class WindShear:
             return
                                 
         ny, nx = gc['z'].shape
-        kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx+1, gc['dx'])[1:],
-                             2. * np.pi * np.fft.fftfreq(ny+1, gc['dy'])[1:])
+        kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx, gc['dx']),
+                             2. * np.pi * np.fft.fftfreq(ny, gc['dy']))
         
         hs = np.fft.fft2(gc['z'])
         hs = self.filter_highfrequenies(kx, ky, hs, nfilter)
@@ -592,6 +592,10 @@ class WindShear:
                     2. * np.sqrt(2.) * sigma * sc_kv(1., 2. * np.sqrt(2.) * sigma)
 
         
+        # No response where the bed does not vary in the direction of the wind
+        dtaux_t[kx == 0.] = 0.
+        dtauy_t[kx == 0.] = 0.
+
         gc['dtaux'] = np.real(np.fft.ifft2(dtaux_t))
         gc['dtauy'] = np.real(np.fft.ifft2(dtauy_t))
         
-- 
2.43.0


From 44d948f91f09947c8ada3fc38a016bc059cc428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 45/45] fix: no separation bubbles over a bed below zero

---
 aeolis/shear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index f9443ce..5ef6a42 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -396,8 +396,8 @@ class WindShear:
         
         k = np.array(range(0, nx))
               
-        zsep =  np.zeros(z.shape)                                                  # total separation bubble      
-        zsep_new =  np.zeros(z.shape)                                               # first-oder separation bubble surface
+        zsep =  z.copy()                                                           # total separation bubble      
+        zsep_new =  z.copy()                                                        # first-oder separation bubble surface
                 
         zfft = np.zeros((ny,nx), dtype=complex)
 
@@ -473,7 +473,7 @@ class WindShear:
             
             for filter_iter in range(sep_filter_iterations):
                 
-                zsep_new = np.zeros(zsep.shape) 
+                zsep_new = z.copy()
                 
                 Cut = 1.5
                 dk = 2.0 * np.pi / (np.max(x))
-- 
2.43.0

