From d262a9b8951cf54ea663b08aca77a864b548a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 001/101] fix: keep the part of a deposit that exceeds a bed
 layer

Deposits larger than the mass of a layer were subtracted from the pickup with
the wrong sign and then discarded, so the bed level did not rise.
---
 aeolis/bed.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index a71214d..ff79ca1 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -254,8 +254,9 @@ def update(s, p):
     nl = p['nlayers']
     nf = p['nfractions']
 
-    # determine net erosion
-    pickup = s['pickup'].reshape((-1,nf))
+    # determine net erosion (copy, as the pickup is modified below in order
+    # to prevent negative mass)
+    pickup = s['pickup'].reshape((-1,nf)).copy()
 
     # determine total mass that should be exchanged between layers
     dm = -np.sum(pickup, axis=-1, keepdims=True).repeat(nf, axis=-1)
@@ -264,6 +265,9 @@ def update(s, p):
     ix_ero = dm[:,0] < 0.
     ix_dep = dm[:,0] > 0.
     
+    # determine bed level change
+    dz = dm[:,0] / (p['rhog'] * (1. - p['porosity']))
+
     # reshape mass matrix
     m = s['mass'].reshape((-1,nl,nf))
 
@@ -310,7 +314,7 @@ def update(s, p):
     # update bathy
     if p['process_bedupdate']:
 
-        dz = dm[:, 0].reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
+        dz = dz.reshape((ny + 1, nx + 1))
         # s['dzb'] = dm[:, 0].reshape((ny + 1, nx + 1))
         s['dzb'] = dz.copy()
 
@@ -436,16 +440,17 @@ def prevent_negative_mass(m, dm, pickup):
             # fill current layer with deposited sediment
             m[ix,i,:] = mx[ix,:].repeat(nf, axis=1) * d[ix,:]
 
-            # remove deposited sediment from pickup
-            pickup[ix,:] -= m[ix,i,:]
+            # remove deposited sediment from pickup (deposition is negative)
+            pickup[ix,:] += m[ix,i,:]
 
         # discard any remaining deposits at locations where all layers
         # are filled with fresh deposits
-        ix = (dm[:,:1] > mx).flatten()
+        ix = (n >= nl).flatten()
         if np.any(ix):
             pickup[ix,:] = 0.
 
         # recompute sediment exchange mass
+        ix = (n > 0).flatten()
         dm[ix,:] = -np.sum(pickup[ix,:], axis=-1, keepdims=True).repeat(nf, axis=-1)
 
     return m, dm, pickup
-- 
2.43.0


From ede74734860a77960aa8c801363f045d17b9fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 002/101] fix: use the matrix coefficients of the right cell
 for wind in negative y-direction

The coefficients of the upper lateral neighbour were taken from the row of that
neighbour rather than from the row of the cell the equation is for. The results
for negative lateral wind were therefore wrong on grids that are not uniform in
lateral direction.
---
 aeolis/model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 0759995..cd7032a 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -911,14 +911,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1282,14 +1282,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1616,12 +1616,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
@@ -2025,12 +2025,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
-- 
2.43.0


From 5dc6ee3bbf8b2d6a10d34922dd422958727dd3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 003/101] fix: use the wind of the opposite boundary for
 circular lateral boundaries

---
 aeolis/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index cd7032a..2a6ea38 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -792,6 +792,10 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:] = s['un'][-1,:,i]
+                un_min[-1,:] = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
@@ -1163,6 +1167,10 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:] = s['un'][-1,:,i]
+                un_min[-1,:] = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
-- 
2.43.0


From b668dd177598d1ae480d91856b9030fa166fb314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 004/101] fix: steady state solver with more than one sediment
 fraction

Comparing the grain size distribution array with None is ambiguous.
---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 2a6ea38..050adba 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -738,7 +738,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            if p['grain_dist'] != None:
+            if p['grain_dist'] is not None:
                 w = p['grain_dist'].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
-- 
2.43.0


From fec57e9628cd043f7afd3c1cfe4e9dc15fb7e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 005/101] fix: sediment leaving through a circular lateral
 boundary in the steadystatepieter solver

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 050adba..db87ad3 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1667,6 +1667,7 @@ class AeoLiS(IBmi):
                 if p['boundary_lateral'] == 'circular':
                     Ctxfn_i[0,:] = ixfn[0,:] * Ct[-1,:,i] \
                                     + (1. - ixfn[0,:]) *  Ct[0,:,i] 
+                    Ctxfn_i[-1,:] = Ctxfn_i[0,:]
                 
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * Ct[:,:,i]                                          
-- 
2.43.0


From ab22f0693f751c676a54dd5a4fbcd4e3a525b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 006/101] fix: no lateral loss of sediment in one-dimensional
 models

With an oblique wind the implicit and steady state solvers removed the lateral
outflow of a one-dimensional model, but had no lateral inflow. A one-dimensional
model now equals a laterally uniform two-dimensional model.
---
 aeolis/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index db87ad3..e66304c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -926,6 +926,8 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
+                # a one-dimensional model is uniform in lateral direction
+                A0 = A0 + Apx + Amx
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
@@ -1301,6 +1303,8 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
+                # a one-dimensional model is uniform in lateral direction
+                A0 = A0 + Apx + Amx
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
-- 
2.43.0


From 65c6b36b4c8a89c1ae9dbfb5acb82bfcaae2ca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 007/101] fix: concentrations stay finite and non-negative when
 negative solutions are removed

---
 aeolis/model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index e66304c..8ec349e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -989,7 +989,8 @@ class AeoLiS(IBmi):
                                               coords=np.argwhere(ix.reshape(y_i.shape)),
                                               **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -1386,7 +1387,7 @@ class AeoLiS(IBmi):
                                               **logprops))
 
                     if Ct_i[~ix].sum() != 0:
-                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     else:
                         Ct_i[~ix] = 0
 
@@ -1768,7 +1769,8 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -2185,7 +2187,8 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
-- 
2.43.0


From 34d0f27e27b330339b045e410f8192fbe1f7cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 008/101] fix: use the bed composition for the initial weights
 of layered and spatially varying beds

---
 aeolis/model.py | 36 ++++++------------------------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 8ec349e..580305b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -736,16 +736,7 @@ class AeoLiS(IBmi):
         # compute transport weights for all sediment fractions
         w_init, w_air, w_bed = aeolis.transport.compute_weights(s, p)
 
-        if self.t == 0.:
-            # use initial guess for first time step
-            if p['grain_dist'] is not None:
-                w = p['grain_dist'].reshape((1,1,-1))
-                w = w.repeat(p['ny']+1, axis=0)
-                w = w.repeat(p['nx']+1, axis=1)
-            else:
-                w = w_init.copy()
-        else:
-            w = w_init.copy()
+        w = w_init.copy()
 
         # set model state properties that are added to warnings and errors
         logprops = dict(minwind=s['uw'].min(),
@@ -1115,16 +1106,7 @@ class AeoLiS(IBmi):
         # compute transport weights for all sediment fractions
         w_init, w_air, w_bed = aeolis.transport.compute_weights(s, p)
 
-        if self.t == 0.:
-            if type(p['bedcomp_file']) == np.ndarray:
-                w = w_init.copy()
-            else:
-                # use initial guess for first time step
-                w = p['grain_dist'].reshape((1,1,-1))
-                w = w.repeat(p['ny']+1, axis=0)
-                w = w.repeat(p['nx']+1, axis=1)
-        else:
-            w = w_init.copy()
+        w = w_init.copy()
 
         # set model state properties that are added to warnings and errors
         logprops = dict(minwind=s['uw'].min(),
@@ -1485,14 +1467,11 @@ class AeoLiS(IBmi):
         # compute transport weights for all sediment fractions
         w_init, w_air, w_bed = aeolis.transport.compute_weights(s, p)
 
+        w = w_init.copy()
+
         if self.t == 0.:
             # use initial guess for first time step
-            w = p['grain_dist'].reshape((1,1,-1))
-            w = w.repeat(p['ny']+1, axis=0)
-            w = w.repeat(p['nx']+1, axis=1)
             return dict(w=w)
-        else:
-            w = w_init.copy()
 
         # set model state properties that are added to warnings and errors
         logprops = dict(minwind=s['uw'].min(),
@@ -1897,14 +1876,11 @@ class AeoLiS(IBmi):
         # compute transport weights for all sediment fractions
         w_init, w_air, w_bed = aeolis.transport.compute_weights(s, p)
 
+        w = w_init.copy()
+
         if self.t == 0.:
             # use initial guess for first time step
-            w = p['grain_dist'].reshape((1,1,-1))
-            w = w.repeat(p['ny']+1, axis=0)
-            w = w.repeat(p['nx']+1, axis=1)
             return dict(w=w)
-        else:
-            w = w_init.copy()
 
         # set model state properties that are added to warnings and errors
         logprops = dict(minwind=s['uw'].min(),
-- 
2.43.0


From 75a0b8d60c34d9b99b65e11b93a0eb65a2822cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 009/101] fix: allow grids of two rows in the transport solvers

---
 aeolis/model.py | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 580305b..c7aea03 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -906,16 +906,17 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[-j:],
-                                        Amx.flatten()[j:],
+                A = scipy.sparse.diags((Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[:-j],
-                                        Amx.flatten()[:j]),
-                                       (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
+                                        Apx.flatten()[:-j]),
+                                       (-j,-2,-1,0,1,2,j), format='csr')
+                A = A + scipy.sparse.diags((Apx.flatten()[-j:],
+                                            Amx.flatten()[:j]),
+                                           (-j*p['ny'],j*p['ny']), format='csr')
             else:
                 # a one-dimensional model is uniform in lateral direction
                 A0 = A0 + Apx + Amx
@@ -1275,16 +1276,17 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[-j:],
-                                        Amx.flatten()[j:],
+                A = scipy.sparse.diags((Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[:-j],
-                                        Amx.flatten()[:j]),
-                                       (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
+                                        Apx.flatten()[:-j]),
+                                       (-j,-2,-1,0,1,2,j), format='csr')
+                A = A + scipy.sparse.diags((Apx.flatten()[-j:],
+                                            Amx.flatten()[:j]),
+                                           (-j*p['ny'],j*p['ny']), format='csr')
             else:
                 # a one-dimensional model is uniform in lateral direction
                 A0 = A0 + Apx + Amx
@@ -1608,14 +1610,15 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[-j:],
-                                        Amx.flatten()[j:],
+                A = scipy.sparse.diags((Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[:-j],
-                                        Amx.flatten()[:j]),
-                                       (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
+                                        Apx.flatten()[:-j]),
+                                       (-j,-1,0,1,j), format='csr')
+                A = A + scipy.sparse.diags((Apx.flatten()[-j:],
+                                            Amx.flatten()[:j]),
+                                           (-j*p['ny'],j*p['ny']), format='csr')
             else:
                 j = p['nx']+1
                 ny = 0
@@ -2016,14 +2019,15 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[-j:],
-                                        Amx.flatten()[j:],
+                A = scipy.sparse.diags((Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[:-j],
-                                        Amx.flatten()[:j]),
-                                       (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
+                                        Apx.flatten()[:-j]),
+                                       (-j,-1,0,1,j), format='csr')
+                A = A + scipy.sparse.diags((Apx.flatten()[-j:],
+                                            Amx.flatten()[:j]),
+                                           (-j*p['ny'],j*p['ny']), format='csr')
             else:
                 A = scipy.sparse.diags((Am1.flatten()[1:],
                                         A0.flatten(),
-- 
2.43.0


From e1f2e2304f25458833fb8ca229c883d5dc7a0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 010/101] fix: cell sizes of two-dimensional grids with
 non-square cells

---
 aeolis/gridparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index a3ae3fa..185245a 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -200,8 +200,8 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
         s['ds'][:, 1:] = np.diff(s['x'], axis=1)
         s['ds'][:, 0] = s['ds'][:, 1]
     else:
-        s['dn'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
-        s['ds'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
+        s['ds'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
+        s['dn'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
          
     # compute cell areas
     s['dsdn'][:,:] = s['ds'] * s['dn']
-- 
2.43.0


From 86a02b706ae69ae9693f2554723fafad0c673157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 011/101] fix: orientation of grids pointing into the second
 quadrant

---
 aeolis/gridparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index 185245a..91a9b55 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -188,7 +188,7 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
     else:
         p['alpha'] = np.rad2deg(np.arctan(dy/dx))
 
-    if dx <= 0 and dy <= 0:
+    if dx < 0 or (dx == 0 and dy <= 0):
         p['alpha'] += 180.
         
     # Rotate grids to allign with horizontal
-- 
2.43.0


From f22e20d5ffcde98eda249cfe6b983e5e83c19142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 012/101] fix: components of the undisturbed shear velocity

---
 aeolis/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index c4f51d9..962a2c9 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -136,8 +136,8 @@ def interpolate(s, p, t):
     s = velocity_stress(s,p)
         
     s['ustar0'] = s['ustar'].copy()
-    s['ustars0'] = s['ustar'].copy()
-    s['ustarn0'] = s['ustar'].copy()
+    s['ustars0'] = s['ustars'].copy()
+    s['ustarn0'] = s['ustarn'].copy()
         
     s['tau0'] = s['tau'].copy()
     s['taus0'] = s['taus'].copy()
-- 
2.43.0


From 2fdce468ba7f1d24f0ad2f3a4f1c708528b5cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 013/101] fix: no lateral loss of sediment in one-dimensional
 models with the pieter solvers

---
 aeolis/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c7aea03..5f5688d 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1620,8 +1620,8 @@ class AeoLiS(IBmi):
                                             Amx.flatten()[:j]),
                                            (-j*p['ny'],j*p['ny']), format='csr')
             else:
-                j = p['nx']+1
-                ny = 0
+                # a one-dimensional model is uniform in lateral direction
+                A0 = A0 + Apx + Amx
                 A = scipy.sparse.diags((Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1]),
@@ -2029,6 +2029,8 @@ class AeoLiS(IBmi):
                                             Amx.flatten()[:j]),
                                            (-j*p['ny'],j*p['ny']), format='csr')
             else:
+                # a one-dimensional model is uniform in lateral direction
+                A0 = A0 + Apx + Amx
                 A = scipy.sparse.diags((Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1]),
-- 
2.43.0


From 7d54de7ad5e21baec027d21188e252778ef95d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 014/101] fix: report no pickup and sediment transport during
 calm wind

---
 aeolis/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5f5688d..1ca6685 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -330,6 +330,11 @@ class AeoLiS(IBmi):
             # calculate average bed level change over time
             self.s = aeolis.bed.average_change(self.l, self.s, self.p)
 
+        else:
+            # no pickup and sediment transport without wind
+            for var in ['pickup', 'qs', 'qn']:
+                self.s[var] = np.zeros(self.s[var].shape)
+
         # compute dune erosion
         if self.p['process_dune_erosion']:
             self.s = aeolis.erosion.run_ph12(self.s, self.p, self.t)
-- 
2.43.0


From 3b312f87a1470fb650aa03ba1f1d692dee675527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 015/101] fix: bed level change used for vegetation growth
 during calm wind

---
 aeolis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 1ca6685..5b1429b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -327,14 +327,14 @@ class AeoLiS(IBmi):
             # reset original bed in marine zone (wet)
             self.s = aeolis.bed.wet_bed_reset(self.s, self.p)
 
-            # calculate average bed level change over time
-            self.s = aeolis.bed.average_change(self.l, self.s, self.p)
-
         else:
             # no pickup and sediment transport without wind
             for var in ['pickup', 'qs', 'qn']:
                 self.s[var] = np.zeros(self.s[var].shape)
 
+        # calculate average bed level change over time
+        self.s = aeolis.bed.average_change(self.l, self.s, self.p)
+
         # compute dune erosion
         if self.p['process_dune_erosion']:
             self.s = aeolis.erosion.run_ph12(self.s, self.p, self.t)
-- 
2.43.0


From 8d80216d8ef5af3a7dcf4e2930cc53ce40bc6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 016/101] fix: fluid threshold includes the non-erodible layer
 and the threshold file

---
 aeolis/threshold.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index db8f688..02758d2 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -99,12 +99,13 @@ def compute(s, p):
                     
         # apply complex mask
         s['uth'] = apply_mask(s['uth'], s['threshold_mask'])
-        s['uthf'] = s['uth'].copy()
         
     #non-erodible layer (NEW)
     if p['th_nelayer']:
         s = non_erodible(s,p)
 
+    s['uthf'] = s['uth'].copy()
+
     return s
 
 
-- 
2.43.0


From 01b0dfc0aa542bf29ca86c30eac8803b3c8d74b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 017/101] fix: flat bed concentration for all transport
 formulations, and bagnold_gs on two-dimensional grids

---
 aeolis/transport.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 84a43d8..3d7add6 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -312,6 +312,7 @@ def equilibrium(s, p):
         
         s['Cu']  = np.zeros(uth.shape)
         s['Cuf'] = np.zeros(uth.shape)
+        s['Cu0'] = np.zeros(uth.shape)
     
                 
         ix = (ustar != 0.)*(u != 0.)
@@ -324,20 +325,24 @@ def equilibrium(s, p):
             
         elif p['method_transport'].lower() == 'bagnold_gs':
             Dref = 0.000250
-            d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1)
+            d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1).repeat(p['ny']+1, axis=0)
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
-            s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
+            s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uthf[ix])**3 / u[ix])
             
-            s['Cu0'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
+            s['Cu0'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar0[ix] - uth0[ix])**3 / u[ix])
         
         elif p['method_transport'].lower() == 'kawamura':
             s['Cu'][ix]  = np.maximum(0., p['Ck'] * rhoa / g * (ustar[ix] + uth[ix])**2 * (ustar[ix] - uth[ix]) / u[ix])
             s['Cuf'][ix] = np.maximum(0, p['Ck'] * rhoa / g * (ustar[ix] + uthf[ix])**2 * (ustar[ix] - uthf[ix]) / u[ix])
+            
+            s['Cu0'][ix] = np.maximum(0., p['Ck'] * rhoa / g * (ustar0[ix] + uth0[ix])**2 * (ustar0[ix] - uth0[ix]) / u[ix])
         
         elif p['method_transport'].lower() == 'lettau':
             s['Cu'][ix]  = np.maximum(0., p['Cl'] * rhoa / g * ustar[ix]**2 * (ustar[ix] - uth[ix]) / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cl'] * rhoa / g * ustar[ix]**2 * (ustar[ix] - uthf[ix]) / u[ix])
 
+            s['Cu0'][ix] = np.maximum(0., p['Cl'] * rhoa / g * ustar0[ix]**2 * (ustar0[ix] - uth0[ix]) / u[ix])
+
         elif p['method_transport'].lower() == 'dk':
             s['Cu'][ix]  = np.maximum(0., p['Cdk'] * rhoa / g * 0.8*uth[ix] * (ustar[ix]**2 - (0.8*uth[ix])**2) / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cdk'] * rhoa / g * 0.8*uthf[ix] * (ustar[ix]**2 - (0.8*uthf[ix])**2) / u[ix])
@@ -353,7 +358,7 @@ def equilibrium(s, p):
          
         elif p['method_transport'].lower() == 'vanrijn_strypsteen':
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * rhoa / g * ((ustar[ix])**3 - (uth[ix])**3) / u[ix])
-            s['Cuf'][ix] = np.maximum(0., p['Cb'] * rhoa / g * ((ustar[ix])**3 - (uth[ix])**3) / u[ix])
+            s['Cuf'][ix] = np.maximum(0., p['Cb'] * rhoa / g * ((ustar[ix])**3 - (uthf[ix])**3) / u[ix])
             
             s['Cu0'][ix] = np.maximum(0., p['Cb'] * rhoa / g * ((ustar0[ix])**3 - (uth0[ix])**3) / u[ix])
         
-- 
2.43.0


From b46195d58ddced994b43ed673dac1e592ec2b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 018/101] fix: error message for an unknown moisture threshold
 formulation

---
 aeolis/threshold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 02758d2..e9809d6 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -230,7 +230,7 @@ def compute_moisture(s, p):
         d = np.sum(p['grain_size'] * p['grain_dist'])   
         s['uth'][ix] = 0.16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + 478.2 * mg[ix] ** 1.52)
     else:
-        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist'], exc=ValueError)
+        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist_threshold'], exc=ValueError)
 
     # should be .04 according to Pye and Tsoar
     # should be .64 according to Delgado-Fernandez (10% vol.)
-- 
2.43.0


From b444ed504619d02a8380f63b86928ed77fff5b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 019/101] fix: sheltering threshold has a default for m and
 keeps the shape of Rti

---
 aeolis/constants.py | 2 +-
 aeolis/threshold.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index a1c0c33..ec9e43a 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -246,7 +246,7 @@ DEFAULT_CONFIG = {
     'Ck'                            : 2.78,               # [-] Constant in kawamura formulation for equilibrium sediment concentration
     'Cl'                            : 6.7,                # [-] Constant in lettau formulation for equilibrium sediment concentration
     'Cdk'                           : 5.,                 # [-] Constant in DK formulation for equilibrium sediment concentration
-    # 'm'                             : 0.5,                # [-] Factor to account for difference between average and maximum shear stress
+    'm'                             : 0.5,                # [-] Factor to account for difference between average and maximum shear stress
 #    'alpha'                         : 0.4,               # [-] Relation of vertical component of ejection velocity and horizontal velocity difference between impact and ejection
     'kappa'                         : 0.41,               # [-] Von Kármán constant
     'sigma'                         : 4.2,                # [-] Ratio between basal area and frontal area of roughness elements
diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index e9809d6..3b3fbc7 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -388,7 +388,7 @@ def compute_sheltering(s, p):
 
     # compute inverse of shear stress ratio
     Rti = np.sqrt((1. - p['m'] * gd) * (1. + p['m'] * p['beta'] / p['sigma'] * gd))
-    s['Rti'] = Rti
+    s['Rti'] = Rti.reshape((ny,nx))
 
     # modify shear velocity threshold
     s['uth'] *= Rti.reshape((ny,nx,1)).repeat(nf, axis=-1)
-- 
2.43.0


From e96bdd9076dd25e415ccfecd7cd42f0fa3942ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 020/101] fix: restore the grid orientation if a time step is
 skipped

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5b1429b..ddb024c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -291,6 +291,8 @@ class AeoLiS(IBmi):
         # determine optimal time step
         self.dt_prev = self.dt
         if not self.set_timestep(dt):
+            # restore original grid orientation
+            self.s = self.grid_rotate(-self.p['alpha'])
             return
 
         # interpolate hydrodynamic time series
-- 
2.43.0


From ef814c0ee6a14c956b8e29b046e99b166905a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 021/101] fix: advance time during calm wind with the explicit
 scheme

---
 aeolis/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index ddb024c..9838b45 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -598,7 +598,8 @@ class AeoLiS(IBmi):
 
         1. No time step could be determined, for example when there is
         no wind and the numerical scheme is explicit. In this case the
-        time step is set arbitrarily to one second.
+        time step is set arbitrarily to one second and the time is
+        updated accordingly.
 
         2. Or when the time step is smaller than -1. In this case the
         time is updated with the absolute value of the time step, but
@@ -633,6 +634,7 @@ class AeoLiS(IBmi):
                     self.dt = np.minimum(self.dt, self.p['CFL'] / dtref)
                 else:
                     self.dt = np.minimum(self.dt, 1.)
+                    self.t += self.dt * self.p['accfac']
                     return False
            
         if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
-- 
2.43.0


From 6d30e9fb977e7b6cdb65188f0782545450999f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 022/101] fix: limit the time step by erosion as well as
 deposition

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 9838b45..d3ddda8 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -637,9 +637,9 @@ class AeoLiS(IBmi):
                     self.t += self.dt * self.p['accfac']
                     return False
            
-        if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
+        if self.p['max_bedlevel_change'] != 999. and np.max(np.abs(self.s['dzb'])) != 0. and self.dt_prev > 0.:
             
-            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(self.s['dzb'])
+            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(np.abs(self.s['dzb']))
             self.dt = np.minimum(self.dt, dt_zb)
             
         self.p['dt_opt'] = self.dt
-- 
2.43.0


From 3431775cc76ae8e98460a7bf40d4369e722289a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 023/101] fix: bed slope in the boundary cells of
 one-dimensional models with the duran grain speed

---
 aeolis/transport.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 3d7add6..762f5d1 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -138,10 +138,10 @@ def duran_grainspeed(s, p):
     dzn[1:-1,:] = (z[:-2,:]-z[2:,:])/(y[:-2,:]-y[2:,:])
     
     # Boundaries
+    dzs[:,0] = dzs[:,1]
+    dzs[:,-1] = dzs[:,-2]
     if ny > 0:
-        dzs[:,0] = dzs[:,1]
         dzn[0,:] = dzn[1,:]
-        dzs[:,-1] = dzs[:,-2]
         dzn[-1,:] = dzn[-2,:]
     
     dhs = np.repeat(dzs[:,:,np.newaxis], nf, axis = 2)
-- 
2.43.0


From 12e04cbc7a73663a457ef40aba0848051f018d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 024/101] fix: shear perturbation does not depend on the mean
 bed level

---
 aeolis/shear.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index dd33ee5..f06c91e 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -544,8 +544,8 @@ class WindShear:
             return
                                 
         ny, nx = gc['z'].shape
-        kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx+1, gc['dx'])[1:],
-                             2. * np.pi * np.fft.fftfreq(ny+1, gc['dy'])[1:])
+        kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx, gc['dx']),
+                             2. * np.pi * np.fft.fftfreq(ny, gc['dy']))
         
         hs = np.fft.fft2(gc['z'])
         hs = self.filter_highfrequenies(kx, ky, hs, nfilter)
@@ -591,7 +591,10 @@ class WindShear:
         dtauy_t = hs * kx * ky / k * 2 / ul**2 * \
                     2. * np.sqrt(2.) * sigma * sc_kv(1., 2. * np.sqrt(2.) * sigma)
 
-        
+        # No perturbation by the mean bed level and by undulations along the wind
+        dtaux_t[kx == 0.] = 0.
+        dtauy_t[kx == 0.] = 0.
+
         gc['dtaux'] = np.real(np.fft.ifft2(dtaux_t))
         gc['dtauy'] = np.real(np.fft.ifft2(dtauy_t))
         
-- 
2.43.0


From e031334346986a0c0ce25413100a020a17ba74d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 025/101] fix: shear perturbation on grids smaller than the
 computational grid

---
 aeolis/shear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index f06c91e..3b070be 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -194,7 +194,7 @@ class WindShear:
         # gc['z'] = self.interpolate(xi_buff, yi_buff, zi_buff, gc['x'], gc['y'], 0)
         
         # Interpolate bed levels and shear to the computational grid
-        gc['z'] = self.interpolate(gi['x'], gi['y'], gi['z'], gc['x'], gc['y'], 0)
+        gc['z'] = self.interpolate(gi['x'], gi['y'], gi['z'], gc['x'], gc['y'], None)
         
         # Project the taus0 and taun0 on the computational grid
         gc['taux'] = np.full(np.shape(gc['x']), taus0)
@@ -559,7 +559,7 @@ class WindShear:
  
         # interpolate roughness length z0 to computational grid
         if np.size(z0)>1:
-            z0new = self.interpolate(gi['x'], gi['y'], z0, gc['x'], gc['y'], 0)
+            z0new = self.interpolate(gi['x'], gi['y'], z0, gc['x'], gc['y'], None)
         else:
             z0new = z0
 
-- 
2.43.0


From 8f01bf830c61852a699e7dfbc875908929e33833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 026/101] fix: shear velocity in the separation bubble of
 one-dimensional models

---
 aeolis/wind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 962a2c9..9455d3b 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -246,6 +246,7 @@ def shear(s,p):
             slope = 0.2  # according to Durán 2010 (Sauermann 2001: c = 0.25 for 14 degrees)
             delta = 1. / (slope * tau_sep)
             zsepdelta = np.minimum(np.maximum(1. - delta * s['hsep'], 0.), 1.)
+            s['tau'] *= zsepdelta
             s['taus'] *= zsepdelta
             s['taun'] *= zsepdelta
             s = stress_velocity(s, p)
-- 
2.43.0


From df8ea5401ecdc8af94685dc11aee25e8429d4a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 027/101] fix: shape of the separation surface in
 one-dimensional models

---
 aeolis/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 9455d3b..730fa43 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -240,7 +240,7 @@ def shear(s,p):
 
         if p['process_separation']:
             zsep = separation1d(s, p)
-            s['zsep'] = zsep
+            s['zsep'] = zsep.reshape(s['zb'].shape)
             s['hsep'] = s['zsep'] - s['zb']
             tau_sep = 0.5
             slope = 0.2  # according to Durán 2010 (Sauermann 2001: c = 0.25 for 14 degrees)
-- 
2.43.0


From add16e609a725d84ac12dd655f4a1cd880bb5830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 028/101] fix: filter of the separation bubble does not depend
 on the origin of the grid

---
 aeolis/shear.py | 2 +-
 aeolis/wind.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 3b070be..1efb617 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -476,7 +476,7 @@ class WindShear:
                 zsep_new = np.zeros(zsep.shape) 
                 
                 Cut = 1.5
-                dk = 2.0 * np.pi / (np.max(x))
+                dk = 2.0 * np.pi / (np.max(x) - np.min(x))
                 zfft[j,:] = np.fft.fft(zsep[j,:])
                 zfft[j,:] *= np.exp(-(dk*k*dx)**2/(2.*Cut**2))
                 zsep_fft = np.real(np.fft.ifft(zfft[j,:]))
diff --git a/aeolis/wind.py b/aeolis/wind.py
index 730fa43..a0e1604 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -481,7 +481,7 @@ def separation1d(s, p):
 
         # Zero order filter
         Cut = 1.5
-        dk = 2.0 * np.pi / (np.max(x))
+        dk = 2.0 * np.pi / (np.max(x) - np.min(x))
         zfft[j, :] = np.fft.fft(zsep0[j, :])
         zfft[j, :] *= np.exp(-(dk * k * dx) ** 2 / (2. * Cut ** 2))
         zsep0[j, :] = np.real(np.fft.ifft(zfft[j, :]))
-- 
2.43.0


From aef4b76d506571bf339ac73f0730abd4a1a26ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 029/101] fix: bed slope for separation in one-dimensional
 models uses the spacing of the grid

---
 aeolis/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index a0e1604..cc97b30 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -363,7 +363,7 @@ def separation1d(s, p):
     x = s['x'][0,:]
     #x = s['x']
     z = s['zb'][0,:]
-    dx = p['dx']
+    dx = np.abs(x[1] - x[0])
     dy = dx
     c = p['c_b']
     mu_b = p['mu_b']
-- 
2.43.0


From f34cf2f622d04d93f9c2669b1f470ab2bd6486cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 030/101] fix: no separation bubble over beds below zero

---
 aeolis/shear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 1efb617..21da332 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -396,8 +396,8 @@ class WindShear:
         
         k = np.array(range(0, nx))
               
-        zsep =  np.zeros(z.shape)                                                  # total separation bubble      
-        zsep_new =  np.zeros(z.shape)                                               # first-oder separation bubble surface
+        zsep = z.copy()                                                            # total separation bubble      
+        zsep_new = z.copy()                                                         # first-oder separation bubble surface
                 
         zfft = np.zeros((ny,nx), dtype=complex)
 
@@ -473,7 +473,7 @@ class WindShear:
             
             for filter_iter in range(sep_filter_iterations):
                 
-                zsep_new = np.zeros(zsep.shape) 
+                zsep_new = z.copy()
                 
                 Cut = 1.5
                 dk = 2.0 * np.pi / (np.max(x) - np.min(x))
-- 
2.43.0


From 79071e7f4707ee0325781b624b8a2617885189c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 031/101] fix: avalanching without non-erodible layer

---
 aeolis/avalanching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 7d7cd3e..c27c5dc 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -135,6 +135,7 @@ def avalanche(s, p):
                 # Calculation of flux
 
                 grad_h_nonerod = (s['zb'] - s['zne']) / s['ds'] # HAS TO BE ADJUSTED!    
+                grad_h_nonerod[np.isnan(grad_h_nonerod)] = np.inf # without non-erodible layer
 				
                 ix = np.logical_and(grad_h > tan_dyn, grad_h_nonerod > 0)
                 slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
-- 
2.43.0


From 8c61fd0eae5b3b9a87ebf354da37a5d6bc8200e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 032/101] fix: no avalanching from below the non-erodible layer

---
 aeolis/avalanching.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index c27c5dc..01ab3af 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -143,6 +143,9 @@ def avalanche(s, p):
                 ix = grad_h_nonerod < grad_h - tan_dyn 
                 slope_diff[ix] = np.tanh(grad_h_nonerod[ix])				                    
 
+                # no more than what is present above the non-erodible layer
+                slope_diff = np.minimum(slope_diff, np.tanh(np.maximum(grad_h_nonerod, 0.)))
+
                 ix = grad_h != 0
                 
                 if ny == 1:
-- 
2.43.0


From 89c04d7fdfba013bc46d66d94e3d55c2be630604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 033/101] fix: total water level without wave runup

---
 aeolis/hydro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 620e629..7680895 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -175,6 +175,11 @@ def interpolate(s, p, t):
             s['TWL'][:] = s['SWL'][:]  + s['R'][:]
             s['DSWL'][:] = s['SWL'][:] # + s['eta'][:]       # DSWL is actually provided by FM (?)
 
+    else:
+        # no runup and set-up
+        s['TWL'][:] = s['SWL'][:]
+        s['DSWL'][:] = s['SWL'][:]
+
 
     if p['process_wave'] and p['wave_file'] is not None:
 
-- 
2.43.0


From 04b922cef1f9f7996f7eeefb9a97f14629dd2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 034/101] fix: groundwater level of the previous time step is
 not modified

---
 aeolis/hydro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 7680895..ceef2b1 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -250,13 +250,13 @@ def update(s, p, dt,t):
         #Initialize GW levels
         if t == p['tstart']:
             s['gw'][:,:] = p['in_gw']
-            s['gw_prev'] = s['gw']
+            s['gw_prev'] = s['gw'].copy()
             s['wetting'] = s['gw'] > s['gw_prev']       
             
         #Specify wetting or drying conditions in previous timestep
         s['wetting'] = s['gw'] > s['gw_prev']
         #Save groundwater from previous timestep
-        s['gw_prev'] = s['gw']        
+        s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
         dt_gw = int(dt / p['tfac_gw'])
-- 
2.43.0


From ca9f69d770b919edb7d8fdd8585754b526bd914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 035/101] fix: groundwater time steps add up to the time step
 of the model

---
 aeolis/hydro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index ceef2b1..76b5107 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -259,8 +259,9 @@ def update(s, p, dt,t):
         s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
-        dt_gw = int(dt / p['tfac_gw'])
-        for i in range(int(dt / dt_gw)):
+        n_gw = max(1, int(p['tfac_gw']))
+        dt_gw = dt / n_gw
+        for i in range(n_gw):
             t_gw = t + i * dt_gw
             interpolate(s,p,t_gw)
                 
-- 
2.43.0


From 7bdc754accea5386cea974958c67143d8c747f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 036/101] fix: seaward groundwater boundary of a grid row does
 not depend on the previous row

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 76b5107..0b9b8e4 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -429,7 +429,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     #Define seaward boundary gw=setup
     for i in range (len(GW[:,0])):
         GW[i,shl_ix[i]] = DSWL[i,shl_ix[i]]
-        GW[i,shl_ix[i-1]] = DSWL[i,shl_ix[i-1]]
+        GW[i,shl_ix[i]-1] = DSWL[i,shl_ix[i]-1]
     # GW[:,shl_ix] = s['DSWL'][:,shl_ix]
     # GW[:,shl_ix-1] = s['DSWL'][:,shl_ix-1]
 
-- 
2.43.0


From 3a69857dca35090ce4b98d4a3a60fb5b80a3f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 037/101] fix: groundwater below entirely flooded or entirely
 dry profiles

---
 aeolis/hydro.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 0b9b8e4..b53cdd4 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -271,6 +271,12 @@ def update(s, p, dt,t):
 
             #Define index of runup limit
             runup_ix =np.argmax(s['zb'] > s['TWL'],axis=1) - 1
+
+            #Entirely flooded or entirely dry profiles
+            shl_ix[np.all(s['zb'] <= s['DSWL'],axis=1)] = s['zb'].shape[1] - 1
+            runup_ix[np.all(s['zb'] <= s['TWL'],axis=1)] = s['zb'].shape[1] - 1
+            shl_ix = np.maximum(shl_ix, 1)
+            runup_ix = np.maximum(runup_ix, shl_ix)
             
             # Landward boundary condition
             if p['boundary_gw'].lower() == 'no_flow':
@@ -478,6 +484,8 @@ def runup_overheight_distr(fx, fx_ix,shl_ix,runup_ix, x):
     
     '''
     for i in range(len(fx[:,0])):
+        if runup_ix[i] <= shl_ix[i]:
+            continue
         #Define index of peak f(x)
         fx_ix[i] = (shl_ix[i]) + (2/3 * (runup_ix[i] - shl_ix[i]))
         #Compute f(X)
-- 
2.43.0


From d972b2364384f7c2df9ac273d9250a6bb31953c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 038/101] fix: salt without the surface moisture process

---
 aeolis/hydro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index b53cdd4..11e866b 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -195,7 +195,7 @@ def interpolate(s, p, t):
         s['Hsmix'] = apply_mask(s['Hsmix'], s['wave_mask'])
 
         
-    if p['process_moist'] and p['method_moist_process'].lower() == 'surf_moisture' and p['meteo_file'] is not None: 
+    if ((p['process_moist'] and p['method_moist_process'].lower() == 'surf_moisture') or p['process_salt']) and p['meteo_file'] is not None: 
 
         m = interp_array(t,
                          p['meteo_file'][:,0],
@@ -414,11 +414,11 @@ def update(s, p, dt,t):
 
     # salinitation
     if p['process_salt']:
-        met = s['meteo']
+        ix = s['TWL'] - s['zb'] > p['eps']
         F2 = -np.log(.5) / p['Tsalt']
         s['salt'][ ix,0] = 1.
         s['salt'][~ix,0] *= np.exp(-F2 * dt)
-        pcp = met['RH'] / 3600. / 1000. # convert precipitation from mm/hr to m/s
+        pcp = s['meteo']['RH'] / 3600. / 1000. if 'meteo' in s else 0. # convert precipitation from mm/hr to m/s
         s['salt'][:,:,0] = np.minimum(1., s['salt'][:,:,0] + pcp * dt / p['layer_thickness'])
 
     return s
-- 
2.43.0


From 1bfdc6f1eb8ce28d27cde5ed98e5b95fe18dda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 039/101] fix: central differences in the groundwater equation

---
 aeolis/hydro.py              | 4 ++--
 docs/user/implementation.rst | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 11e866b..c62d42a 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -471,8 +471,8 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     for i in range(len(a[:,0])):
         if shl_ix[i] < len(a[0,:]) - 3:   
             a[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]+1:-1] - 2 * GW[i,shl_ix[i]:-2] + GW[i,shl_ix[i]-1:-3]) / ds[i,shl_ix[i]:-2] ** 2
-            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] + GW[i,shl_ix[i]-1:-3])) / ds[i,shl_ix[i]:-2]                  
-            c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4])/ds[i,shl_ix[i]+1:-3]
+            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] - GW[i,shl_ix[i]-1:-3])) / (2 * ds[i,shl_ix[i]:-2])
+            c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4])/(2 * ds[i,shl_ix[i]+1:-3])
             dGW[i,shl_ix[i]+1:-3]=K_gw / ne_gw * (D_gw * a[i,shl_ix[i]+1:-3] + c[i,shl_ix[i]+1:-3])
 
     return dGW
diff --git a/docs/user/implementation.rst b/docs/user/implementation.rst
index 532b560..46f24a4 100644
--- a/docs/user/implementation.rst
+++ b/docs/user/implementation.rst
@@ -690,10 +690,10 @@ where, :math:`i` is the grid cell in x-direction and :math:`t` is the timestep.
    {a_i} = \frac{{\eta _{i + 1}^{} - 2\eta _i^{} + \eta _{i - 1}^{}}}{{{{(\Delta x)}^2}}}
 
 .. math::
-      {b_i} = \frac{{\eta _i^{}\left( {\eta _{i + 1}^{} - \eta _{i - 1}^{}} \right)}}{{\Delta x}}
+      {b_i} = \frac{{\eta _i^{}\left( {\eta _{i + 1}^{} - \eta _{i - 1}^{}} \right)}}{{2\Delta x}}
 
 .. math::
-      {c_i} = \frac{{\left( {b_{i + 1}^{} - b_{i - 1}^{}} \right)}}{{\Delta x}}
+      {c_i} = \frac{{\left( {b_{i + 1}^{} - b_{i - 1}^{}} \right)}}{{2\Delta x}}
 
 The seaward boundary condition is defined as the still water level plus the wave setup . 
 If the groundwater elevation is larger than the bed elevation, there is a seepage face, 
-- 
2.43.0


From 0230683ee2d6674d32e23c984b5e28cf2e61cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 040/101] fix: initial surface moisture with scanning curves if
 the model does not start at zero

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index c62d42a..80ea8cf 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -365,7 +365,7 @@ def update(s, p, dt,t):
             
             if p['process_scanning']:
             #Initialize value of surface moisture due to capillary rise
-                if t == 0:
+                if t == p['tstart']:
                     s['moist_swr'] = p['resw_moist'] + (p['satw_moist'] - p['resw_moist']) \
                           / (1 + abs(p['alfaw_moist'] * h) ** p['nw_moist']) ** p['mw_moist']
                     s['h_delta'][:,:]=np.maximum(0,(s['zb'] - s['gw'])*100)
-- 
2.43.0


From f1760945fed69e942d08c8d5d163f6eb93a28e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 041/101] fix: groundwater overheight due to runup is an
 infiltration rate

---
 aeolis/constants.py | 2 +-
 aeolis/hydro.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index ec9e43a..bfed57b 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -280,7 +280,7 @@ DEFAULT_CONFIG = {
     'ne_gw'                         : 0.3,          # NEWCH      # [-] Effective porosity
     'D_gw'                          : 12,           # NEWCH      # [m] Aquifer depth
     'tfac_gw'                       : 10,           # NEWCH      # [-] Reduction factor for time step in ground water calculations
-    'Cl_gw'                         : 0.7,          # NEWCH      # [m] Groundwater overheight due to runup
+    'Cl_gw'                         : 0.7,          # NEWCH      # [-] Infiltration coefficient of groundwater overheight due to runup
     'in_gw'                         : 0,            # NEWCH      # [m] Initial groundwater level
     'GW_stat'                       : 1,            # NEWCH      # [m] Landward static groundwater boundary (if static boundary is defined)
     'theta_dyn'                     : 33.,                # [degrees] Initial Dynamic angle of repose, critical dynamic slope for avalanching
diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 80ea8cf..7cfdaac 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -308,7 +308,7 @@ def update(s, p, dt,t):
                 runup_overheight_distr(fx, fx_ix, shl_ix, runup_ix, s['x'])
                     
                 # Update groundwater level with overheight due to runup
-                s['gw'] = s['gw'] + p['Cl_gw'] * fx
+                s['gw'] = s['gw'] + dt_gw * p['Cl_gw'] * p['K_gw'] / p['ne_gw'] * fx
 
             # Apply GW complex mask
             s['gw'] = apply_mask(s['gw'], s['gw_mask'])
-- 
2.43.0


From f184080827234bc1247a0117406e5fd54e513c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 042/101] fix: restore avalanching without non-erodible layer
 as in the regression cases (reverts 79071e7)

---
 aeolis/avalanching.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 01ab3af..7fc2dc3 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -135,7 +135,6 @@ def avalanche(s, p):
                 # Calculation of flux
 
                 grad_h_nonerod = (s['zb'] - s['zne']) / s['ds'] # HAS TO BE ADJUSTED!    
-                grad_h_nonerod[np.isnan(grad_h_nonerod)] = np.inf # without non-erodible layer
 				
                 ix = np.logical_and(grad_h > tan_dyn, grad_h_nonerod > 0)
                 slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
@@ -144,7 +143,7 @@ def avalanche(s, p):
                 slope_diff[ix] = np.tanh(grad_h_nonerod[ix])				                    
 
                 # no more than what is present above the non-erodible layer
-                slope_diff = np.minimum(slope_diff, np.tanh(np.maximum(grad_h_nonerod, 0.)))
+                slope_diff = np.minimum(slope_diff, np.tanh(np.fmax(grad_h_nonerod, 0.)))
 
                 ix = grad_h != 0
                 
-- 
2.43.0


From a8a1f281855ecf28858ea24428695ff67588d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 043/101] fix: lateral expansion of vegetation uses the cell
 size of the grid

---
 aeolis/vegetation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 6fc5832..58944ea 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -103,10 +103,7 @@ def germinate(s,p):
     s['germinate'] = np.minimum(s['germinate'], 1.)
 
     # Lateral expension
-    if ny > 1:
-        dx = s['ds'][2,2]
-    else:
-        dx = p['dx']
+    dx = s['ds']
 
     p_lateral_year = p['lateral']  
     p_lateral_dt = 1-(1-p_lateral_year)**(1./n)
-- 
2.43.0


From 97a040d5ed5e2b8bc0efda64b860b894c408ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 044/101] fix: no growth of vegetation that died and did not
 germinate again

---
 aeolis/vegetation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 58944ea..74108c3 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -132,6 +132,9 @@ def grow (s, p): #DURAN 2006
     
     ix = np.logical_or(s['germinate'] != 0., s['lateral'] != 0.) * ( p['V_ver'] > 0.)
                                                     
+    # No growth without germination or lateral expansion
+    s['dhveg'][:,:] = 0.
+
     # Reduction of vegetation growth due to sediment burial
     s['dhveg'][ix] = p['V_ver'] * (1 - s['hveg'][ix] / p['hveg_max']) - np.abs(s['dzbveg'][ix]-p['dzb_opt']) * p['veg_gamma']  # m/year
 
-- 
2.43.0


From 410acc2b26b018e83f7a7e75f6ff026edcd7f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 045/101] fix: no growth of vegetation cover by the number of
 denser neighbours

---
 aeolis/vegetation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 74108c3..db6244d 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -150,6 +150,7 @@ def grow (s, p): #DURAN 2006
         ix2 = s['rhoveg'] > rhoveg_max
         s['rhoveg'][ix2] = rhoveg_max
         ixzero = s['rhoveg'] <= 0
+        s['drhoveg'] = np.zeros(s['rhoveg'].shape)
         if p['V_ver'] > 0:
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
         else:
-- 
2.43.0


From 4bc0f856b15ce1bd6e2256044be84b29136e346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 046/101] fix: growth of vegetation cover uses the actual time
 step

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index db6244d..e650a74 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -155,7 +155,7 @@ def grow (s, p): #DURAN 2006
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
         else:
             s['drhoveg'][ix] = 0
-        s['rhoveg'] += s['drhoveg']*(p['dt']*p['accfac'])/(365.25 * 24 *3600)
+        s['rhoveg'] += s['drhoveg']*(p['dt_opt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
         s['rhoveg'][ixzero] = 0 #here only grow vegetation that already existed
-- 
2.43.0


From 1d6fde486760302f30bcdf8eb8003e4b33b4fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 047/101] fix: lee side of vegetation and fences in
 one-dimensional models with an orientation

---
 aeolis/fences.py     | 2 +-
 aeolis/vegetation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 38611d3..199b99a 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -466,7 +466,7 @@ def fence_shear1d(s, p):
     ix = ustar != 0
     ets[ix] = ustars[ix] / ustar[ix]
     etn[ix] = ustarn[ix] / ustar[ix]
-    udir = s['udir'][0,0]+180
+    udir = s['udir'][0,0] - p['alfa'] + 180
 
     x = s['x'][0,:]
     zp = s['fence_height'][0,:]
diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index e650a74..a15ca1e 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -196,7 +196,7 @@ def vegshear_okin(s, p):
     ix = ustar != 0
     ets[ix] = ustars[ix] / ustar[ix]
     etn[ix] = ustarn[ix] / ustar[ix]
-    udir = s['udir'][0,0] + 180
+    udir = s['udir'][0,0] - p['alfa'] + 180
 
     x = s['x'][0,:]
     zp = s['hveg'][0,:]
-- 
2.43.0


From de98b40913490b41faa453a38c577fb891296998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 048/101] fix: shear, separation and fences with an orientation
 of the grid

---
 aeolis/fences.py | 2 +-
 aeolis/wind.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 199b99a..2ef1b78 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -96,7 +96,7 @@ def fence_shear2d(s, p):
     dy = dx
 
 
-    udir = s['udir'][0, 0]
+    udir = s['udir'][0, 0] - p['alfa']
     if udir < 0:
         udir = udir + 360
     udir = udir - np.floor(udir / 360) * 360
diff --git a/aeolis/wind.py b/aeolis/wind.py
index cc97b30..6c1b732 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -215,7 +215,7 @@ def shear(s,p):
         
         s['shear'](x=s['x'], y=s['y'], z=s['zb'],
                    taux=s['taus'], tauy=s['taun'],
-                   u0=s['uw'][0,0], udir=s['udir'][0,0],
+                   u0=s['uw'][0,0], udir=s['udir'][0,0] - p['alfa'],
                    process_separation = p['process_separation'],
                    c = p['c_b'],
                    mu_b = p['mu_b'],
@@ -368,7 +368,7 @@ def separation1d(s, p):
     c = p['c_b']
     mu_b = p['mu_b']
     nx = np.size(z)
-    udir = s['udir'][0][0]
+    udir = s['udir'][0][0] - p['alfa']
 
     #make the grids 2d to utilize same code as in the shear module
     ny = 3
-- 
2.43.0


From c84d9dc4cfb65518dd59552ccc4ef24e1446b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 049/101] fix: fences below the reference level

---
 aeolis/fences.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 2ef1b78..1625eea 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -69,8 +69,6 @@ def update_fence_height(s, p):
     s['fence_height'] = s['fence_top']-s['zb']
     ix = s['fence_height_init'] < 0.1
     s['fence_height'][ix] = 0
-    ix = s['fence_top'] < 0.1
-    s['fence_height'][ix] = 0
     ix = s['fence_height'] < 0.1
     s['fence_height'][ix] = 0
 
-- 
2.43.0


From d93a3ae36ed2a6bc3244cb0c5e6314af93fabe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 050/101] fix: fences in two-dimensional models reduce the wind
 and do not turn it

---
 aeolis/fences.py | 50 ++++++++----------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 1625eea..d5b65aa 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -184,56 +184,22 @@ def calc_fence_shear(igrid, cgrid, udir, x0, y0, p):
     # Compute wind shear stresses on computational grid
     gc = compute_fenceshear(gi, gc, udir, p)
 
-    ustarx_init = gc['ustarx'][0,0]
-    gc['ustarx'] = gc['ustarx'] * gc['mult_all']
-    gc['ustary'] = np.zeros(gc['x'].shape)
-
-    #ensure bad data doesnt make it through
-    #ix = gc['mindist'] > 20
-    #gc['ustarx'][ix] = ustarx_init
-
-
-    gc['ustarx'], gc['ustary'] = rotate(gc['ustarx'], gc['ustary'], udir + 90)
-
-    # Rotate both (i&c) grids + results in opposite dir.
+    # Rotate both (i&c) grids in opposite dir., such that the computational grid is aligned with the axes
     gi['x'], gi['y'] = rotate(gi['x'], gi['y'], -(udir + 90.), origin=(x0, y0))
 
     gc['x'], gc['y'] = rotate(gc['x'], gc['y'], -(udir + 90.), origin=(x0, y0))
 
-    gc['ustary'], gc['ustarx'] = rotate(gc['ustarx'], gc['ustary'], -(udir + 90))
+    # Interpolate reduction of the wind shear to real grid
+    mult = interpolate(gc['x'], gc['y'], gc['mult_all'],
+                       gi['x'], gi['y'])
 
-    # Interpolate wind shear results to real grid
-    gi['ustarx'] = interpolate(gc['x'], gc['y'], gc['ustarx'],
-                               gi['x'], gi['y'])
-    gi['ustary'] = interpolate(gc['x'], gc['y'], gc['ustary'],
-                               gi['x'], gi['y'])
-
-    # Rotate real grid and wind shear results back to orignal orientation
+    # Rotate both grids back to orignal orientation
     gc['x'], gc['y'] = rotate(gc['x'], gc['y'], udir + 90., origin=(x0, y0))
     gi['x'], gi['y'] = rotate(gi['x'], gi['y'], +(udir + 90.), origin=(x0, y0))
 
-    gi['ustarx'], gi['ustary'] = rotate(gi['ustarx'], gi['ustary'], +(udir + 90))
-
-    #avoid any boundary effects
-    #gi['ustarx'][1,:] = gi['ustarx'][2,:]
-    #gi['ustarx'][:,1] = gi['ustarx'][:,2]
-    #gi['ustarx'][-2,:] = gi['ustarx'][-3,:]
-    #gi['ustarx'][:,-2] = gi['ustarx'][:,-3]
-
-    #gi['ustary'][1,:] = gi['ustary'][1,:]
-    #gi['ustary'][:,1] = gi['ustary'][:,1]
-    #gi['ustary'][-2,:] = gi['ustary'][-2,:]
-    #gi['ustary'][:,-2] = gi['ustary'][:,-2]
-
-    gi['ustarx'][0,:] = gi['ustarx'][1,:]
-    gi['ustarx'][:,0] = gi['ustarx'][:,1]
-    gi['ustarx'][-1,:] = gi['ustarx'][-2,:]
-    gi['ustarx'][:,-1] = gi['ustarx'][:,-2]
-
-    gi['ustary'][0,:] = gi['ustary'][1,:]
-    gi['ustary'][:,0] = gi['ustary'][:,1]
-    gi['ustary'][-1,:] = gi['ustary'][-2,:]
-    gi['ustary'][:,-1] = gi['ustary'][:,-2]
+    # Reduce wind shear, the wind direction does not change
+    gi['ustarx'] = gi['ustarx'] * mult
+    gi['ustary'] = gi['ustary'] * mult
 
     return gi, gc
 
-- 
2.43.0


From 5de95462920c245871b27e537fe26f863ea4281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 051/101] fix: sheltering by fences in two-dimensional models
 uses the distance along the wind

---
 aeolis/fences.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index d5b65aa..0c8b80a 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -306,7 +306,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
     for iy in range(ny):
 
         # intialize other grid parameters
-        x = gc['x'][iy, :]
+        x = gc['xi'][iy, :] # distance along the wind
         zp = gc['z'][iy, :]
         red_all = np.zeros(x.shape)
 
@@ -321,10 +321,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
 
                 # print(zp[igrid])
                 # local parameters
-                if udir >= 180 and udir <= 360:
-                    xrel = x - x[igrid]
-                else:
-                    xrel = -(x - x[igrid])
+                xrel = x - x[igrid]
 
                 red = np.zeros(x.shape)
                 mult = np.ones(x.shape)
-- 
2.43.0


From 31d69eb7f6ab0d082a9c7a1bfe61009a893bb18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 052/101] fix: no sheltering by fences in cells that border a
 fence only by rounding

---
 aeolis/fences.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 0c8b80a..c689859 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -316,8 +316,9 @@ def compute_fenceshear(igrid, cgrid, udir, p):
 
         for igrid in range(nx2):
 
-            # only look at cells with a roughness element
-            if zp[igrid] > 0:
+            # only look at cells with a roughness element (and not at rounding
+            # errors of the interpolation next to it)
+            if zp[igrid] > 1e-6:
 
                 # print(zp[igrid])
                 # local parameters
-- 
2.43.0


From 0b6d383541a693de7c5981b6f62b21b6f92e2063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 053/101] fix: grain speed of Duran below the reference level
 without separation bubble

---
 aeolis/transport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 762f5d1..167b0e8 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -190,7 +190,7 @@ def duran_grainspeed(s, p):
         
         
         # set the grain velocity to zero inside the separation bubble
-        ix = (s['zsep'] > s['zb'] + 0.01)
+        ix = (s['hsep'] > 0.01)
         
         sepspeed = 0.1
         us[ix,i] = sepspeed * ets[ix, i]
-- 
2.43.0


From d4f27e6732570cb8b1ca440ab64bf3e26cf1fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 054/101] fix: dune erosion with a water level above the dune
 toe and no waves

---
 aeolis/erosion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/erosion.py b/aeolis/erosion.py
index ee51217..2ff9909 100644
--- a/aeolis/erosion.py
+++ b/aeolis/erosion.py
@@ -81,7 +81,8 @@ def run_ph12(s, p, t):
     for iy in range(ny + 1):
         twl = s['R'][iy][0] * Kd + wl
 
-        if twl > zToe:
+        # no collisions without waves
+        if twl > zToe and s['sigma_s'][iy][0] > 0.:
             x = s['x'][iy, :]
             zb = s['zb'][iy, :]
             eta = s['eta'][iy][0]
-- 
2.43.0


From 2a1b77f3d619b4023f46930913e3004e53f4b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 055/101] fix: update of a runner before its first output or
 request of a variable

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index d3ddda8..797458d 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2406,6 +2406,7 @@ class AeoLiSRunner(AeoLiS):
 
         self.n = 0 # time step counter
         self.o = {} # output stats
+        self.clear = False # clear output stats before next time step
 
         self.changed = False
         self.cwd = None
-- 
2.43.0


From dcaef3ffc1f12785c005c88bd896a10d3cdee2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 056/101] fix: explicit runs that start without wind and runs
 without a full time step

---
 aeolis/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 797458d..fcb8d64 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2402,6 +2402,7 @@ class AeoLiSRunner(AeoLiS):
         self.tout = 0.
         self.tlog = 0.
         self.plog = -1.
+        self.dt_array = []
         self.trestart = 0.
 
         self.n = 0 # time step counter
@@ -3007,9 +3008,9 @@ class AeoLiSRunner(AeoLiS):
         logger.info(fmt % ('# matrix solves', aeolis.inout.print_value(n_matrixsolve)))
         logger.info(fmt % ('# supply lim', aeolis.inout.print_value(n_supplylim)))
         logger.info(fmt % ('avg. solves per step',
-                           aeolis.inout.print_value(float(n_matrixsolve) / n_time)))
+                           aeolis.inout.print_value(float(n_matrixsolve) / max(n_time, 1))))
         logger.info(fmt % ('avg. time step',
-                           aeolis.inout.print_value(float(self.p['tstop']) / n_time)))
+                           aeolis.inout.print_value(float(self.p['tstop']) / max(n_time, 1))))
 
         logger.info('**********************************************************')
         logger.info('')
-- 
2.43.0


From 00ca1561c45541f112b7a2687b7666a9fb7a3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 057/101] fix: output of the flux magnitude one time step
 behind

---
 aeolis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index fcb8d64..c3a1397 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -334,6 +334,9 @@ class AeoLiS(IBmi):
             for var in ['pickup', 'qs', 'qn']:
                 self.s[var] = np.zeros(self.s[var].shape)
 
+        # magnitude of sediment flux
+        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
+
         # calculate average bed level change over time
         self.s = aeolis.bed.average_change(self.l, self.s, self.p)
 
@@ -2777,9 +2780,6 @@ class AeoLiSRunner(AeoLiS):
             if 'var' in exts:
                 self.o[k]['var'] = self.o[k]['var'] + v**2
 
-        #also update the q variable here
-        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
-
         self.n += 1
 
 
-- 
2.43.0


From 1a53932c15da05e22e5715891ee31775c24d568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 058/101] fix: requests and output of variables and parameters
 with an underscore in their name

---
 aeolis/model.py | 53 +++++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c3a1397..1dd2ace 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2638,22 +2638,41 @@ class AeoLiSRunner(AeoLiS):
 
         self.clear = clear
 
-        if '_' in var:
-            var, stat = var.split('_')
-            if var in self.o:
-                return self.get_statistic(var, stat)
-
-        # TODO: delete in future releases
-        if '.' in var:
-            warnings.warn('The use of "%s" is deprecated, use '
-                             '"%s" instead.' % (var, var.replace('.','_')), DeprecationWarning)
-            var, stat = var.split('.')
-            if var in self.o:
-                return self.get_statistic(var, stat)
+        var0, stat = self.split_var(var)
+        if stat is not None and var0 in self.o:
+            return self.get_statistic(var0, stat)
 
         return super(AeoLiSRunner, self).get_var(var)
 
 
+    def split_var(self, var:str) -> tuple:
+        '''Splits name of statistic in names of spatial grid and statistic
+
+        Parameters
+        ----------
+        var : str
+            Name of spatial grid, optionally extended with a postfix
+            for a statistic (_avg, _sum, _var, _min or _max)
+
+        Returns
+        -------
+        tuple
+            Name of spatial grid and name of statistic. The name of
+            the statistic is None if no statistic is requested.
+        '''
+
+        for sep in ['_', '.']:
+            var0, _, stat = var.rpartition(sep)
+            if var0 in self.s and stat in ['avg', 'sum', 'var', 'min', 'max']:
+                # TODO: delete in future releases
+                if sep == '.':
+                    warnings.warn('The use of "%s" is deprecated, use '
+                                  '"%s" instead.' % (var, var.replace('.','_')), DeprecationWarning)
+                return var0, stat
+
+        return var, None
+
+
     def initialize(self) -> None:
         '''Initialize model
 
@@ -2715,15 +2734,7 @@ class AeoLiSRunner(AeoLiS):
         # determine unique combinations of variables and types
         self.p['_output_vars'] = {}
         for var in self.p['output_vars']:
-            if '_' in var:
-                var0, ext = var.split('_')
-            # TODO: delete in future release
-            elif '.' in var:
-                warnings.warn('The use of "%s" is deprecated, use '
-                                 '"%s" instead.' % (var, var.replace('.','_')), DeprecationWarning)
-                var0, ext = var.split('.')
-            else:
-                var0, ext = var, None
+            var0, ext = self.split_var(var)
             if var0 not in self.p['_output_vars']:
                 self.p['_output_vars'][var0] = []
             if ext not in self.p['_output_vars'][var0]:
-- 
2.43.0


From 46eb06db8ef4bad713bec339a46d2ad76905adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 059/101] fix: output of simulations that do not start at time
 zero

---
 aeolis/model.py  | 6 +++++-
 aeolis/netcdf.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 1dd2ace..8c43adf 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2751,6 +2751,10 @@ class AeoLiSRunner(AeoLiS):
 
         self.output_clear()
 
+        # start of output intervals
+        self.tout = self.t
+        self.trestart = self.t
+
 
     def output_clear(self) -> None:
         '''Clears output statistics dictionary
@@ -2804,7 +2808,7 @@ class AeoLiSRunner(AeoLiS):
         dictionary.
         '''
 
-        if self.t - self.tout >= self.p['output_times'] or self.t == 0.:
+        if self.t - self.tout >= self.p['output_times'] or self.t == self.p['tstart']:
 
             variables = {}
             variables['time'] = self.t
diff --git a/aeolis/netcdf.py b/aeolis/netcdf.py
index 9a10a40..9d8cdc6 100644
--- a/aeolis/netcdf.py
+++ b/aeolis/netcdf.py
@@ -231,7 +231,7 @@ def initialize(outputfile, outputvars, s, p, dimensions):
         nc.variables['lon_bounds'].units = 'degrees_east'
         nc.variables['lon_bounds'].comment = 'longitude values at the west and east bounds of each pixel.'
             
-        nc.createVariable('time_bounds', 'float32', (u'time', u'nv'))
+        nc.createVariable('time_bounds', 'float64', (u'time', u'nv'))
         nc.variables['time_bounds'].units = 'seconds since %s' % p['refdate']
         nc.variables['time_bounds'].comment = 'time bounds for each time value'
 
@@ -372,7 +372,7 @@ def set_bounds(outputfile):
 
     with netCDF4.Dataset(outputfile, 'a') as nc:
         i = nc.variables['time'].shape[0] - 1
-        nc.variables['time_bounds'][i,0] = 0 if i == 0 else nc.variables['time'][i-1]
+        nc.variables['time_bounds'][i,0] = nc.variables['time'][max(i-1, 0)]
         nc.variables['time_bounds'][i,1] = nc.variables['time'][i]
 
 
-- 
2.43.0


From 73f92f03f88e8ba3af45efb55b451dc0eb27db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 060/101] fix: writing and loading of restart files

---
 aeolis/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 8c43adf..bc4c3e2 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -109,6 +109,11 @@ class ModelState(dict):
             self.set_mutable(k)
 
 
+    def __reduce__(self):
+        """Keeps the set of mutable variables when copied or pickled"""
+        return (self.__class__, (dict(self),), {'ismutable': set(self.ismutable)})
+
+
     def set_mutable(self, k:str) -> None:
         """Adds mutable variable to the model state"""
         self.ismutable.add(k)
@@ -2873,10 +2878,11 @@ class AeoLiSRunner(AeoLiS):
         if restartfile:
             if os.path.exists(restartfile):
                 # Load model state
-                with open(restartfile, 'r') as fp:
+                with open(restartfile, 'rb') as fp:
                     state = pickle.load(fp)
 
                     self.t = state['t']
+                    self.dt = state['dt']
                     self.p = state['p']
                     self.s = state['s']
                     self.l = state['l']
@@ -2894,8 +2900,9 @@ class AeoLiSRunner(AeoLiS):
         '''Dumps model state to restart file'''
 
         restartfile = '%s.r%010d' % (os.path.splitext(self.p['output_file'])[0], int(self.t))
-        with open(restartfile, 'w') as fp:
+        with open(restartfile, 'wb') as fp:
             pickle.dump({'t':self.t,
+                         'dt':self.dt,
                          'p':self.p,
                          's':self.s,
                          'l':self.l,
-- 
2.43.0


From e98b6134c76a692d5f1833c7f310ea010a4d0c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 061/101] fix: initial groundwater level if the start of the
 simulation is skipped

---
 aeolis/hydro.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 7cfdaac..9535440 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -244,11 +244,15 @@ def update(s, p, dt,t):
         Spatial grids
 
     '''
+    # First time step for which hydrodynamics are computed, which is not
+    # necessarily at the start of the simulation in case time is skipped
+    first = p.setdefault('_thydro', t) == t
+
     # Groundwater level Boussinesq (1D CS-transects)
     if p['process_groundwater']:
         
         #Initialize GW levels
-        if t == p['tstart']:
+        if first:
             s['gw'][:,:] = p['in_gw']
             s['gw_prev'] = s['gw'].copy()
             s['wetting'] = s['gw'] > s['gw_prev']       
@@ -365,7 +369,7 @@ def update(s, p, dt,t):
             
             if p['process_scanning']:
             #Initialize value of surface moisture due to capillary rise
-                if t == p['tstart']:
+                if first:
                     s['moist_swr'] = p['resw_moist'] + (p['satw_moist'] - p['resw_moist']) \
                           / (1 + abs(p['alfaw_moist'] * h) ** p['nw_moist']) ** p['mw_moist']
                     s['h_delta'][:,:]=np.maximum(0,(s['zb'] - s['gw'])*100)
-- 
2.43.0


From 8ebe681dffff1981ca8582dcb48d6df81b100f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 062/101] fix: numbers in scientific notation, names that look
 like numbers or None and lists in configuration files

---
 aeolis/inout.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index cfbdcc8..0a0e232 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -273,15 +273,15 @@ def parse_value(val, parse_files=True, force_list=False):
         
     val = val.strip()
     
-    if ' ' in val or force_list:
-        return np.asarray([parse_value(x) for x in val.split(' ')])
+    if re.search('\s', val) or force_list:
+        return np.asarray([parse_value(x, parse_files=parse_files) for x in val.split()])
     elif re.match('^[TF]$', val):
         return val == 'T'
-    elif re.match('^-?\d+$', val):
+    elif re.match('^[+-]?\d+$', val):
         return int(val)
-    elif re.match('^-?[\d\.]+$', val):
+    elif re.match('^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$', val):
         return float(val)
-    elif re.match('None', val):
+    elif re.match('^None$', val):
         return None
     elif os.path.isfile(val) and parse_files:
         for dtype in [float, complex]:
-- 
2.43.0


From 3766b50c67e32375354de2883c1fcfdd568a0b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 063/101] fix: reference date given in the configuration file

---
 aeolis/inout.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 0a0e232..590276f 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -91,8 +91,12 @@ def read_configfile(configfile, parse_files=True, load_defaults=True):
         with open(configfile, 'r') as fp:
             for line in fp:
                 if '=' in line and not line.strip().startswith('%'):
-                    key, val = line.split('=')[:2]
+                    key, val = line.split('=', 1)
                     p[key.strip()] = parse_value(val, parse_files=parse_files)
+                    
+                    # reference date contains a space, but is not a list
+                    if key.strip() == 'refdate' and isarray(p['refdate']):
+                        p['refdate'] = ' '.join(val.split('%')[0].split())
     else:
         logger.log_and_raise('File not found [%s]' % configfile, exc=IOError)
        
-- 
2.43.0


From bbcd9a1423aa3f4aa45fc98d59aa0b8e6c12f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 064/101] fix: writing of configuration files in Python 3

---
 aeolis/inout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 590276f..7f3cc1e 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -156,7 +156,7 @@ def write_configfile(configfile, p=None):
     if p is None:
         p = DEFAULT_CONFIG.copy()
 
-    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.iterkeys()])
+    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.keys()])
         
     with open(configfile, 'w') as fp:
 
@@ -166,7 +166,7 @@ def write_configfile(configfile, p=None):
         fp.write('%s\n' % ('%' * 70))
         fp.write('\n')
         
-        for k, v in sorted(p.iteritems()):
+        for k, v in sorted(p.items()):
             if k.endswith('_file') and isiterable(v):
                 fname = '%s.txt' % k.replace('_file', '')
                 backup(fname)
-- 
2.43.0


From 9ec53de97c087f9cd739c439ab131ddb76c964a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 065/101] fix: configuration files written with rounded numbers

---
 aeolis/inout.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 7f3cc1e..941aba9 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -173,7 +173,36 @@ def write_configfile(configfile, p=None):
                 np.savetxt(fname, v)
                 fp.write(fmt % (k, fname))
             else:
-                fp.write(fmt % (k, print_value(v, fill='')))
+                fp.write(fmt % (k, format_value(v)))
+
+
+def format_value(val):
+    '''Construct a string representation that is read back as the same value
+
+    Parameters
+    ----------
+    val : misc
+        Value to be represented as string
+
+    Returns
+    -------
+    str
+        String representation of value
+
+    See Also
+    --------
+    parse_value
+
+    '''
+
+    if isiterable(val):
+        return ' '.join([format_value(x) for x in val])
+    elif isinstance(val, (bool, np.bool_)):
+        return 'T' if val else 'F'
+    elif isinstance(val, (float, np.floating)):
+        return repr(float(val))
+    else:
+        return print_value(val, fill='')
 
 
 def check_configuration(p):
-- 
2.43.0


From b147cab0b028503de91233560ca33ae4bd277571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 066/101] fix: masks written to configuration files

---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 941aba9..2090fba 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -167,7 +167,7 @@ def write_configfile(configfile, p=None):
         fp.write('\n')
         
         for k, v in sorted(p.items()):
-            if k.endswith('_file') and isiterable(v):
+            if (k.endswith('_file') or k.endswith('_mask')) and isiterable(v):
                 fname = '%s.txt' % k.replace('_file', '')
                 backup(fname)
                 np.savetxt(fname, v)
-- 
2.43.0


From ee4a78ef9b2e03b9334f5e79f310608d25b60f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 067/101] fix: empty list of external variables in
 configuration file

---
 aeolis/inout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 2090fba..a00a39d 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -106,6 +106,10 @@ def read_configfile(configfile, parse_files=True, load_defaults=True):
         p['grain_dist'] = makeiterable(p['grain_dist'])
         p['grain_size'] = makeiterable(p['grain_size'])
 
+    # ensure list of external variables, also if empty
+    if 'external_vars' in p:
+        p['external_vars'] = list(makeiterable(p['external_vars']))
+
     # set default output file, if not given
     if 'output_file' in p and not p['output_file']:
         p['output_file'] = '%s.nc' % os.path.splitext(configfile)[0]
-- 
2.43.0


From beb67317e20af166eb53e7887b483b9b7b53aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 068/101] fix: simulation with default configuration

---
 aeolis/constants.py | 2 +-
 aeolis/model.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index bfed57b..d755038 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -217,7 +217,7 @@ DEFAULT_CONFIG = {
     'output_vars'                   : ['zb', 'zs',
                                        'Ct', 'Cu',
                                        'uw', 'udir', 
-                                       'uth', 'mass'
+                                       'uth', 'mass',
                                        'pickup', 'w'],    # Names of spatial grids to be included in output
     'output_types'                  : [],                 # Names of statistical parameters to be included in output (avg, sum, var, min or max)
     'external_vars'                 : [],                 # Names of variables that are overwritten by an external (coupling) model, i.e. CoCoNuT
diff --git a/aeolis/model.py b/aeolis/model.py
index bc4c3e2..41b39c6 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2427,13 +2427,13 @@ class AeoLiSRunner(AeoLiS):
         elif self.configfile.upper() == 'DEFAULT':
             self.changed = True
             self.configfile = os.path.abspath('aeolis.txt')
-            self.p = aeolis.constants.DEFAULT_CONFIG
+            self.p = aeolis.constants.DEFAULT_CONFIG.copy()
 
             # add default profile and time series
             self.p.update(dict(nx         = 99,
                                ny         = 0,
                                xgrid_file = np.arange(0.,100.,1.),
-                               bed_file   = np.linspace(-5.,5.,100.),
+                               bed_file   = np.linspace(-5.,5.,100),
                                wind_file  = np.asarray([[0.,10.,0.],
                                                         [3601.,10.,0.]])))
         else:
-- 
2.43.0


From b3d40cc0b6a8ee0f1914992ccc71c61a8cd5a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 069/101] fix: masks with a factor zero where the value is
 infinite

---
 aeolis/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/utils.py b/aeolis/utils.py
index d886111..5ee3927 100644
--- a/aeolis/utils.py
+++ b/aeolis/utils.py
@@ -309,7 +309,8 @@ def apply_mask(arr, mask):
     for d in shp:
         mask = mask.reshape(mask.shape + tuple([1])).repeat(d, axis=-1)
 
-    # apply mask
+    # apply mask (a factor zero also replaces infinite values)
+    arr[np.real(mask) == 0.] = 0.
     arr *= np.real(mask)
     arr += np.imag(mask)
 
-- 
2.43.0


From 2f5f0bef2af297f83425da39b5162c3bf94fb86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 070/101] fix: threshold given in a file in one dimension,
 above a non-erodible layer and with grain speed of Duran

---
 aeolis/bed.py       | 2 +-
 aeolis/threshold.py | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index ff79ca1..03199ca 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -113,7 +113,7 @@ def initialize(s, p):
 
     # initialize threshold
     if p['threshold_file'] is not None:
-        s['uth'] = p['threshold_file'][:,:,np.newaxis].repeat(nf, axis=-1)
+        s['uth'] = p['threshold_file'].reshape(s['zb'].shape)[:,:,np.newaxis].repeat(nf, axis=-1)
         
     return s
 
diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 3b3fbc7..56a4293 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -100,6 +100,13 @@ def compute(s, p):
         # apply complex mask
         s['uth'] = apply_mask(s['uth'], s['threshold_mask'])
         
+    elif p['threshold_file'] is not None:
+
+        # restore given threshold where it was changed by the non-erodible layer,
+        # the threshold of the grain size is still used for the grain speed
+        s = compute_grainsize(s, p)
+        s['uth'][:,:,:] = p['threshold_file'].reshape(s['zb'].shape)[:,:,np.newaxis]
+
     #non-erodible layer (NEW)
     if p['th_nelayer']:
         s = non_erodible(s,p)
-- 
2.43.0


From 15262613aa911ba77c1cfe358d6784396e13a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 071/101] fix: unknown names of options are reported

---
 aeolis/hydro.py      |  2 +-
 aeolis/model.py      | 10 ++++++++--
 aeolis/transport.py  |  3 +++
 aeolis/vegetation.py |  9 +++++++--
 aeolis/wind.py       | 12 +++++++-----
 5 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 9535440..5dc77a3 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -292,7 +292,7 @@ def update(s, p, dt,t):
                 bound = 1
                 
             else:
-                 logger.log_and_raise('Unknown landward groundwater boundary condition' % p['boundary_gw'], exc=ValueError)
+                 logger.log_and_raise('Unknown landward groundwater boundary condition [%s]' % p['boundary_gw'], exc=ValueError)
 
         
             #Runge-Kutta timestepping
diff --git a/aeolis/model.py b/aeolis/model.py
index 41b39c6..b5ea26b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -693,6 +693,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
 
         return solve
 
@@ -714,6 +716,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
             
         return solve
 
@@ -733,6 +737,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
 
         return solve
 
@@ -892,7 +898,7 @@ class AeoLiS(IBmi):
             elif p['boundary_onshore'] == 'gradient':
                 Am2[:,-1] = s['ds'][:,-2] / s['ds'][:,-3]
                 Am1[:,-1] = -1. - s['ds'][:,-2] / s['ds'][:,-3]
-            elif p['boundary_offshore'] == 'circular':
+            elif p['boundary_onshore'] == 'circular':
                 logger.log_and_raise('Cross-shore cricular boundary condition not yet implemented', exc=NotImplementedError)
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
@@ -1262,7 +1268,7 @@ class AeoLiS(IBmi):
             elif p['boundary_onshore'] == 'gradient':
                 Am2[:,-1] = s['ds'][:,-2] / s['ds'][:,-3]
                 Am1[:,-1] = -1. - s['ds'][:,-2] / s['ds'][:,-3]
-            elif p['boundary_offshore'] == 'circular':
+            elif p['boundary_onshore'] == 'circular':
                 logger.log_and_raise('Cross-shore cricular boundary condition not yet implemented', exc=NotImplementedError)
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
diff --git a/aeolis/transport.py b/aeolis/transport.py
index 167b0e8..657db30 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -298,6 +298,9 @@ def equilibrium(s, p):
             us = s['us']
             un = s['un']
             u = s['u']
+
+        else:
+            logger.log_and_raise('Unknown grain speed method [%s]' % p['method_grainspeed'], exc=ValueError)
      
         
         ustar  = s['ustar'][:,:,np.newaxis].repeat(nf, axis=2)
diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index a15ca1e..e7958a4 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -75,8 +75,10 @@ def initialize (s,p):
 def vegshear(s, p):
     if p['vegshear_type'] == 'okin' and p['ny'] == 0:
         s = vegshear_okin(s, p)
-    else:
+    elif p['vegshear_type'] in ('raupach', 'okin'):
         s = vegshear_raupach(s, p)
+    else:
+        logger.log_and_raise('Unknown vegetation shear type [%s]' % p['vegshear_type'], exc=ValueError)
 
     s = velocity_stress(s,p)
 
@@ -143,7 +145,7 @@ def grow (s, p): #DURAN 2006
         s['hveg'] += s['dhveg']*(p['dt_opt'] * p['accfac']) / (365.25*24.*3600.)
         s['hveg'] = np.maximum(np.minimum(s['hveg'], p['hveg_max']), 0.)
         s['rhoveg'] = (s['hveg']/p['hveg_max'])**2
-    else:
+    elif p['veggrowth_type'] == 'duranmoore14':
         t_veg = p['t_veg']/365
         v_gam = p['v_gam']
         rhoveg_max = p['rhoveg_max']
@@ -162,6 +164,9 @@ def grow (s, p): #DURAN 2006
         #now convert back to height for Okin or wherever else needed
         s['hveg'][:,:] = p['hveg_max']*np.sqrt(s['rhoveg'])
 
+    else:
+        logger.log_and_raise('Unknown vegetation growth type [%s]' % p['veggrowth_type'], exc=ValueError)
+
     # Plot has to vegetate again after dying
     s['germinate'] *= (s['rhoveg']!=0.)
     s['lateral'] *= (s['rhoveg']!=0.)
diff --git a/aeolis/wind.py b/aeolis/wind.py
index 6c1b732..8df226f 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -176,16 +176,16 @@ def calculate_z0(p, s):
     '''
     if p['method_roughness'] == 'constant':
         z0    = p['k']  # Here, the ks (roughness length) is equal to the z0, this method is implemented to assure backward compatibility. Note, this does not follow the definition of z0 = ks /30 by Nikuradse    
-    if p['method_roughness'] == 'constant_nikuradse':
+    elif p['method_roughness'] == 'constant_nikuradse':
         z0    = p['k'] / 30   # This equaion follows the definition of the bed roughness as introduced by Nikuradse
-    if p['method_roughness'] == 'mean_grainsize_initial': #(based on Nikuradse and Bagnold, 1941), can only be applied in case with uniform grain size and is most applicable to a flat bed
+    elif p['method_roughness'] == 'mean_grainsize_initial': #(based on Nikuradse and Bagnold, 1941), can only be applied in case with uniform grain size and is most applicable to a flat bed
         z0    = np.sum(p['grain_size']*p['grain_dist']) / 30.
-    if p['method_roughness'] == 'mean_grainsize_adaptive': # makes Nikuradse roughness method variable through time and space depending on grain size variations
+    elif p['method_roughness'] == 'mean_grainsize_adaptive': # makes Nikuradse roughness method variable through time and space depending on grain size variations
         z0    = calc_mean_grain_size(p, s) / 30.
-    if p['method_roughness'] == 'median_grainsize_adaptive': # based on Sherman and Greenwood, 1982 - only appropriate for naturally occurring grain size distribution
+    elif p['method_roughness'] == 'median_grainsize_adaptive': # based on Sherman and Greenwood, 1982 - only appropriate for naturally occurring grain size distribution
         d50 = calc_grain_size(p, s, 50)
         z0 = 2*d50 / 30.
-    if p['method_roughness'] == 'vanrijn_strypsteen': # based on van Rijn and Strypsteen, 2019; Strypsteen et al., 2021
+    elif p['method_roughness'] == 'vanrijn_strypsteen': # based on van Rijn and Strypsteen, 2019; Strypsteen et al., 2021
         if len(p['grain_dist']) == 1:  # if one grainsize is used the d90 is calculated with the d50 
             d50 = p['grain_size']
             d90 = 2*d50
@@ -204,6 +204,8 @@ def calculate_z0(p, s):
         alpha2 = 1
         gamma_r = 1 + 1/T
         z0    = (d90 + alpha1 * gamma_r * d50 * np.power(T, alpha2)) / 30
+    else:
+        logger.log_and_raise('Unknown roughness method [%s]' % p['method_roughness'], exc=ValueError)
     return z0
 
 
-- 
2.43.0


From f2d3b347527703453cfab23864889633700637ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 072/101] fix: thresholds that are not implemented are reported

---
 aeolis/threshold.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 56a4293..14eb923 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -89,9 +89,9 @@ def compute(s, p):
                 s['uth'][ix] = np.inf
                 
         if p['th_drylayer']:
-            s = dry_layer(s, p)
+            logger.log_and_raise('Threshold based on drying of the top layer not yet implemented', exc=NotImplementedError)
         if p['th_humidity']:
-            s = compute_humidity(s, p)
+            logger.log_and_raise('Threshold based on humidity not yet implemented', exc=NotImplementedError)
         if p['th_salt']:
             s = compute_salt(s, p)
         if p['th_sheltering']:
-- 
2.43.0


From 556a10348b0931fd2772fc5017973221a05d2767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 073/101] fix: onshore boundary without flux

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index b5ea26b..43c9799 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1256,7 +1256,7 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown offshore boundary condition [%s]' % self.p['boundary_offshore'], exc=ValueError)
 
-            if (p['boundary_onshore'] == 'flux') | (p['boundary_offshore'] == 'noflux'):                              
+            if (p['boundary_onshore'] == 'flux') | (p['boundary_onshore'] == 'noflux'):                              
                 Am2[:,-1] = 0.
                 Am1[:,-1] = 0.            
             elif p['boundary_onshore'] == 'constant':                              
-- 
2.43.0


From c8ee2db22f6cf683c82b8b88197da2d4ff1e5796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 074/101] fix: constant lateral boundary condition

---
 aeolis/model.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 43c9799..34c35da 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -903,7 +903,7 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
 
-            if p['boundary_lateral'] == 'constant':
+            if p['boundary_lateral'] == 'constant' and p['ny'] > 0:
                 A0[0,:] = 1.
                 Apx[0,:] = 0.
                 Ap1[0,:] = 0.
@@ -921,7 +921,7 @@ class AeoLiS(IBmi):
                 logger.log_and_raise('Lateral uniform boundary condition not yet implemented', exc=NotImplementedError)
             elif p['boundary_lateral'] == 'gradient':
                 logger.log_and_raise('Lateral gradient boundary condition not yet implemented', exc=NotImplementedError)
-            elif p['boundary_lateral'] == 'circular':
+            elif p['boundary_lateral'] in ('circular', 'constant'):
                 pass
             else:
                 logger.log_and_raise('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'], exc=ValueError)
@@ -988,6 +988,11 @@ class AeoLiS(IBmi):
                 if p['boundary_onshore'] == 'constant':
                     y_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i]
 
+                # no sediment enters through the lateral boundaries
+                if p['boundary_lateral'] == 'constant' and p['ny'] > 0:
+                    y_i[0,1:-1] = 0.
+                    y_i[-1,1:-1] = 0.
+
                 # solve system with current weights
                 Ct_i = scipy.sparse.linalg.spsolve(A, y_i.flatten())
                 Ct_i = prevent_tiny_negatives(Ct_i, p['max_error'])
@@ -1273,7 +1278,7 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
 
-            if p['boundary_lateral'] == 'constant':
+            if p['boundary_lateral'] == 'constant' and p['ny'] > 0:
                 A0[0,:] = 1.
                 Apx[0,:] = 0.
                 Ap1[0,:] = 0.
@@ -1291,7 +1296,7 @@ class AeoLiS(IBmi):
                 logger.log_and_raise('Lateral uniform boundary condition not yet implemented', exc=NotImplementedError)
             elif p['boundary_lateral'] == 'gradient':
                 logger.log_and_raise('Lateral gradient boundary condition not yet implemented', exc=NotImplementedError)
-            elif p['boundary_lateral'] == 'circular':
+            elif p['boundary_lateral'] in ('circular', 'constant'):
                 pass
             else:
                 logger.log_and_raise('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'], exc=ValueError)
@@ -1377,6 +1382,11 @@ class AeoLiS(IBmi):
                 if p['boundary_onshore'] == 'constant':
                     y_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i]
 
+                # no sediment enters through the lateral boundaries
+                if p['boundary_lateral'] == 'constant' and p['ny'] > 0:
+                    y_i[0,1:-1] = 0.
+                    y_i[-1,1:-1] = 0.
+
                 # solve system with current weights
                 Ct_i = scipy.sparse.linalg.spsolve(A, y_i.flatten())
                 Ct_i = prevent_tiny_negatives(Ct_i, p['max_error'])
-- 
2.43.0


From b69a529ccd5de756db918284cc35e8a8a6b2fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 075/101] fix: constant boundary conditions and lateral
 boundaries of one-dimensional models in solver pieter

---
 aeolis/model.py | 108 ++++++++++++++++++++++++++----------------------
 1 file changed, 58 insertions(+), 50 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 34c35da..c9ac870 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1615,23 +1615,25 @@ class AeoLiS(IBmi):
                 #nothing to be done
                 pass
             elif p['boundary_lateral'] == 'constant':
-                #constant sediment concentration (hC) in the air
-                A0[0,:] = 1.
-                Apx[0,:] = 0.
-                Amx[0,:] = 0.
-                Ap1[0,:] = 0.
-                Am1[0,:] = 0.
-                A0[-1,:] = 1.
-                Apx[-1,:] = 0.
-                Amx[-1,:] = 0.
-                Ap1[-1,:] = 0.
-                Am1[-1,:] = 0.
+                if p['ny'] > 0:
+                    #constant sediment concentration (hC) in the air
+                    A0[0,:] = 1.
+                    Apx[0,:] = 0.
+                    Amx[0,:] = 0.
+                    Ap1[0,:] = 0.
+                    Am1[0,:] = 0.
+                    A0[-1,:] = 1.
+                    Apx[-1,:] = 0.
+                    Amx[-1,:] = 0.
+                    Ap1[-1,:] = 0.
+                    Am1[-1,:] = 0.
             elif p['boundary_lateral'] == 'gradient':
-                #remove the flux at the inner face of the cell
-                A0[0,:]   -= s['ds'][0,:] * ufn[1,:]   *       ixfn[1,:]        #upper y-face
-                Apx[0,:]  -= s['ds'][0,:] * ufn[1,:]   * (1. - ixfn[1,:])       #upper y-face
-                A0[-1,:]  += s['ds'][-1,:] * ufn[-2,:] * (1. - ixfn[-2,:])      #lower y-face
-                Amx[-1,:] += s['ds'][-1,:] * ufn[-2,:] *       ixfn[-2,:]       #lower y-face
+                if p['ny'] > 0:
+                    #remove the flux at the inner face of the cell
+                    A0[0,:]   -= s['ds'][0,:] * ufn[1,:]   *       ixfn[1,:]        #upper y-face
+                    Apx[0,:]  -= s['ds'][0,:] * ufn[1,:]   * (1. - ixfn[1,:])       #upper y-face
+                    A0[-1,:]  += s['ds'][-1,:] * ufn[-2,:] * (1. - ixfn[-2,:])      #lower y-face
+                    Amx[-1,:] += s['ds'][-1,:] * ufn[-2,:] *       ixfn[-2,:]       #lower y-face
             elif p['boundary_lateral'] == 'circular':   
                 A0[0,:]   -= s['ds'][0,:]  * ufn[0,:]  * (1. - ixfn[0,:])       #lower y-face
                 Amx[0,:]  -= s['ds'][0,:]  * ufn[0,:]  *       ixfn[0,:]        #lower y-face
@@ -1715,7 +1717,7 @@ class AeoLiS(IBmi):
                     yCt_i[:,0]  += s['dn'][:,0] * ufs[:,0] * s['Cu0'][:,0,i] * p['offshore_flux'] 
                 elif p['boundary_offshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
-                    yCt_i[:,0]  = p['constant_offshore_flux']
+                    yCt_i[:,0]  = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
 
                 elif p['boundary_offshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -1733,7 +1735,7 @@ class AeoLiS(IBmi):
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
-                    yCt_i[:,-1]  = p['constant_onshore_flux']
+                    yCt_i[:,-1]  = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
 
                 elif p['boundary_onshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -1751,13 +1753,15 @@ class AeoLiS(IBmi):
                     yCt_i[0,:]   += s['ds'][0,:] * ufn[0,:]  * s['Cu0'][0,:,i] * p['lateral_flux'] #lower y-face
                     yCt_i[-1,:]  -= s['ds'][-1,:] * ufn[-1,:] * s['Cu0'][-1,:,i] * p['lateral_flux'] #upper y-face                    
                 elif p['boundary_lateral'] == 'constant':
-                    #constant sediment concentration (hC) in the air
-                    yCt_i[0,:]  = 0.
-                    yCt_i[-1,:] = 0.
+                    if p['ny'] > 0:
+                        #constant sediment concentration (hC) in the air
+                        yCt_i[0,:]  = -Ct[0,:,i]
+                        yCt_i[-1,:] = -Ct[-1,:,i]
                 elif p['boundary_lateral'] == 'gradient':
-                    #remove the flux at the inner face of the cell
-                    yCt_i[-1,:] -= s['ds'][-2,:] * ufn[-2,:] * Ctxfn_i[-2,:] #lower y-face
-                    yCt_i[0,:]  += s['ds'][1,:]  * ufn[1,:]  * Ctxfn_i[1,:]  #upper y-face
+                    if p['ny'] > 0:
+                        #remove the flux at the inner face of the cell
+                        yCt_i[-1,:] -= s['ds'][-2,:] * ufn[-2,:] * Ctxfn_i[-2,:] #lower y-face
+                        yCt_i[0,:]  += s['ds'][1,:]  * ufn[1,:]  * Ctxfn_i[1,:]  #upper y-face
                 elif p['boundary_lateral'] == 'circular':
                     yCt_i[0,:]  += s['ds'][0,:]  * ufn[0,:]  * Ctxfn_i[0,:]  #lower y-face
                     yCt_i[-1,:] -= s['ds'][-1,:] * ufn[-1,:] * Ctxfn_i[-1,:] #upper y-face
@@ -2024,23 +2028,25 @@ class AeoLiS(IBmi):
                 #nothing to be done
                 pass
             elif p['boundary_lateral'] == 'constant':
-                #constant sediment concentration (hC) in the air
-                A0[0,:] = 1.
-                Apx[0,:] = 0.
-                Amx[0,:] = 0.
-                Ap1[0,:] = 0.
-                Am1[0,:] = 0.
-                A0[-1,:] = 1.
-                Apx[-1,:] = 0.
-                Amx[-1,:] = 0.
-                Ap1[-1,:] = 0.
-                Am1[-1,:] = 0.
+                if p['ny'] > 0:
+                    #constant sediment concentration (hC) in the air
+                    A0[0,:] = 1.
+                    Apx[0,:] = 0.
+                    Amx[0,:] = 0.
+                    Ap1[0,:] = 0.
+                    Am1[0,:] = 0.
+                    A0[-1,:] = 1.
+                    Apx[-1,:] = 0.
+                    Amx[-1,:] = 0.
+                    Ap1[-1,:] = 0.
+                    Am1[-1,:] = 0.
             elif p['boundary_lateral'] == 'gradient':
-                #remove the flux at the inner face of the cell
-                A0[0,:]   -= s['ds'][0,:] * ufn[1,:]   *       ixfn[1,:]   * alpha #upper y-face
-                Apx[0,:]  -= s['ds'][0,:] * ufn[1,:]   * (1. - ixfn[1,:])  * alpha #upper y-face
-                A0[-1,:]  += s['ds'][-1,:] * ufn[-2,:] * (1. - ixfn[-2,:]) * alpha #lower y-face
-                Amx[-1,:] += s['ds'][-1,:] * ufn[-2,:] *       ixfn[-2,:]  * alpha #lower y-face
+                if p['ny'] > 0:
+                    #remove the flux at the inner face of the cell
+                    A0[0,:]   -= s['ds'][0,:] * ufn[1,:]   *       ixfn[1,:]   * alpha #upper y-face
+                    Apx[0,:]  -= s['ds'][0,:] * ufn[1,:]   * (1. - ixfn[1,:])  * alpha #upper y-face
+                    A0[-1,:]  += s['ds'][-1,:] * ufn[-2,:] * (1. - ixfn[-2,:]) * alpha #lower y-face
+                    Amx[-1,:] += s['ds'][-1,:] * ufn[-2,:] *       ixfn[-2,:]  * alpha #lower y-face
             elif p['boundary_lateral'] == 'circular':
                 A0[0,:]   -= s['ds'][0,:]  * ufn[0,:]  * (1. - ixfn[0,:])  * alpha #lower y-face
                 Amx[0,:]  -= s['ds'][0,:]  * ufn[0,:]  *       ixfn[0,:]   * alpha #lower y-face
@@ -2131,8 +2137,8 @@ class AeoLiS(IBmi):
                     yCt_i[:,0]  += s['dn'][:,0] * ufs[:,0] * s['Cu0'][:,0,i] * p['offshore_flux'] 
 
                 elif p['boundary_offshore'] == 'constant':
-                    #constant sediment concentration (Ct) in the air (for now = 0)
-                    yCt_i[:,0]  = 0.
+                    #constant sediment concentration (Ct) in the air
+                    yCt_i[:,0]  = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
 
                 elif p['boundary_offshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -2149,8 +2155,8 @@ class AeoLiS(IBmi):
                     yCt_i[:,-1]  += s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux'] 
 
                 elif p['boundary_onshore'] == 'constant':
-                    #constant sediment concentration (Ct) in the air (for now = 0)
-                    yCt_i[:,-1]  = 0.
+                    #constant sediment concentration (Ct) in the air
+                    yCt_i[:,-1]  = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
 
                 elif p['boundary_onshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -2169,13 +2175,15 @@ class AeoLiS(IBmi):
                     yCt_i[-1,:] -= s['ds'][-1,:] * ufn[-1,:] * s['Cu0'][-1,:,i] * p['lateral_flux'] #upper y-face
                     
                 elif p['boundary_lateral'] == 'constant':
-                    #constant sediment concentration (hC) in the air
-                    yCt_i[0,:]  = 0.
-                    yCt_i[-1,:] = 0.
+                    if p['ny'] > 0:
+                        #constant sediment concentration (hC) in the air
+                        yCt_i[0,:]  = -Ct[0,:,i]
+                        yCt_i[-1,:] = -Ct[-1,:,i]
                 elif p['boundary_lateral'] == 'gradient':
-                    #remove the flux at the inner face of the cell
-                    yCt_i[-1,:] -= s['ds'][-2,:] * ufn[-2,:] * Ctxfn_i[-2,:] #lower y-face
-                    yCt_i[0,:]  += s['ds'][1,:]  * ufn[1,:]  * Ctxfn_i[1,:]  #upper y-face
+                    if p['ny'] > 0:
+                        #remove the flux at the inner face of the cell
+                        yCt_i[-1,:] -= s['ds'][-2,:] * ufn[-2,:] * Ctxfn_i[-2,:] #lower y-face
+                        yCt_i[0,:]  += s['ds'][1,:]  * ufn[1,:]  * Ctxfn_i[1,:]  #upper y-face
                 elif p['boundary_lateral'] == 'circular':
                     yCt_i[0,:]  += s['ds'][0,:]  * ufn[0,:]  * Ctxfn_i[0,:]  #lower y-face
                     yCt_i[-1,:] -= s['ds'][-1,:] * ufn[-1,:] * Ctxfn_i[-1,:] #upper y-face
-- 
2.43.0


From 2cbad7de2e41f7f13a3aac0f63e17f2da82139bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 076/101] fix: sign of flux through onshore boundary in solver
 pieter

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c9ac870..fcd026e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1731,7 +1731,7 @@ class AeoLiS(IBmi):
                 # onshore boundary (i=nx)
 
                 if p['boundary_onshore'] == 'flux':
-                    yCt_i[:,-1]  += s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux']
+                    yCt_i[:,-1]  -= s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux']
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
@@ -2152,7 +2152,7 @@ class AeoLiS(IBmi):
                 # onshore boundary (i=nx)
 
                 if p['boundary_onshore'] == 'flux':
-                    yCt_i[:,-1]  += s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux'] 
+                    yCt_i[:,-1]  -= s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux'] 
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air
-- 
2.43.0


From 88846d63f1a3fc79e16f52eb14b23d2abe24580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 077/101] fix: constant boundary conditions in the corners of
 two-dimensional models in solver pieter

---
 aeolis/model.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index fcd026e..72f009a 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1641,6 +1641,13 @@ class AeoLiS(IBmi):
                 Apx[-1,:] += s['ds'][-1,:] * ufn[-1,:] * (1. - ixfn[-1,:])      #upper y-face
             else:
                 raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
+
+            # constant concentrations are not affected by lateral exchange
+            for ix, boundary in [(0, 'boundary_offshore'), (-1, 'boundary_onshore')]:
+                if p[boundary] == 'constant':
+                    A0[:,ix] = 1.
+                    Apx[:,ix] = 0.
+                    Amx[:,ix] = 0.
          
             # construct sparse matrix
             if p['ny'] > 0:
@@ -1767,6 +1774,12 @@ class AeoLiS(IBmi):
                     yCt_i[-1,:] -= s['ds'][-1,:] * ufn[-1,:] * Ctxfn_i[-1,:] #upper y-face
                 else:
                     raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
+
+                # constant concentrations are not affected by lateral exchange
+                if p['boundary_offshore'] == 'constant':
+                    yCt_i[:,0] = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
+                if p['boundary_onshore'] == 'constant':
+                    yCt_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
                 
                 # print("ugs = %.*g" % (3,s['ugs'][10,10]))
                 # print("ugn = %.*g" % (3,s['ugn'][10,10]))
@@ -2054,6 +2067,13 @@ class AeoLiS(IBmi):
                 Apx[-1,:] += s['ds'][-1,:] * ufn[-1,:] * (1. - ixfn[-1,:]) * alpha #upper y-face
             else:
                 raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
+
+            # constant concentrations are not affected by lateral exchange
+            for ix, boundary in [(0, 'boundary_offshore'), (-1, 'boundary_onshore')]:
+                if p[boundary] == 'constant':
+                    A0[:,ix] = 1.
+                    Apx[:,ix] = 0.
+                    Amx[:,ix] = 0.
          
             # construct sparse matrix
             if p['ny'] > 0:
@@ -2189,6 +2209,12 @@ class AeoLiS(IBmi):
                     yCt_i[-1,:] -= s['ds'][-1,:] * ufn[-1,:] * Ctxfn_i[-1,:] #upper y-face
                 else:
                     raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
+
+                # constant concentrations are not affected by lateral exchange
+                if p['boundary_offshore'] == 'constant':
+                    yCt_i[:,0] = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
+                if p['boundary_onshore'] == 'constant':
+                    yCt_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
                 
                 # print("ugs = %.*g" % (3,s['ugs'][10,10]))
                 # print("ugn = %.*g" % (3,s['ugn'][10,10]))
-- 
2.43.0


From 6d52db88948912ef1e01ed3a2c306d2b67a8cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 078/101] fix: constant boundary condition where the grain
 velocity is zero

---
 aeolis/model.py | 24 ++++++++++++------------
 aeolis/utils.py | 25 +++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 72f009a..a4c29d4 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -984,9 +984,9 @@ class AeoLiS(IBmi):
                     y_i[:,-1] = p['onshore_flux'] * s['Cu0'][:,-1,i] 
                     
                 if p['boundary_offshore'] == 'constant':
-                    y_i[:,0] = p['constant_offshore_flux'] / s['u'][:,0,i] 
+                    y_i[:,0] = flux_to_concentration(p['constant_offshore_flux'], s['u'][:,0,i]) 
                 if p['boundary_onshore'] == 'constant':
-                    y_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i]
+                    y_i[:,-1] = flux_to_concentration(p['constant_onshore_flux'], s['u'][:,-1,i])
 
                 # no sediment enters through the lateral boundaries
                 if p['boundary_lateral'] == 'constant' and p['ny'] > 0:
@@ -1378,9 +1378,9 @@ class AeoLiS(IBmi):
                     y_i[:,-1] = p['onshore_flux'] * s['Cu0'][:,-1,i] 
                     
                 if p['boundary_offshore'] == 'constant':
-                    y_i[:,0] = p['constant_offshore_flux'] / s['u'][:,0,i] 
+                    y_i[:,0] = flux_to_concentration(p['constant_offshore_flux'], s['u'][:,0,i]) 
                 if p['boundary_onshore'] == 'constant':
-                    y_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i]
+                    y_i[:,-1] = flux_to_concentration(p['constant_onshore_flux'], s['u'][:,-1,i])
 
                 # no sediment enters through the lateral boundaries
                 if p['boundary_lateral'] == 'constant' and p['ny'] > 0:
@@ -1724,7 +1724,7 @@ class AeoLiS(IBmi):
                     yCt_i[:,0]  += s['dn'][:,0] * ufs[:,0] * s['Cu0'][:,0,i] * p['offshore_flux'] 
                 elif p['boundary_offshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
-                    yCt_i[:,0]  = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
+                    yCt_i[:,0]  = flux_to_concentration(p['constant_offshore_flux'], s['u'][:,0,i]) - Ct[:,0,i]
 
                 elif p['boundary_offshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -1742,7 +1742,7 @@ class AeoLiS(IBmi):
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
-                    yCt_i[:,-1]  = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
+                    yCt_i[:,-1]  = flux_to_concentration(p['constant_onshore_flux'], s['u'][:,-1,i]) - Ct[:,-1,i]
 
                 elif p['boundary_onshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -1777,9 +1777,9 @@ class AeoLiS(IBmi):
 
                 # constant concentrations are not affected by lateral exchange
                 if p['boundary_offshore'] == 'constant':
-                    yCt_i[:,0] = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
+                    yCt_i[:,0] = flux_to_concentration(p['constant_offshore_flux'], s['u'][:,0,i]) - Ct[:,0,i]
                 if p['boundary_onshore'] == 'constant':
-                    yCt_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
+                    yCt_i[:,-1] = flux_to_concentration(p['constant_onshore_flux'], s['u'][:,-1,i]) - Ct[:,-1,i]
                 
                 # print("ugs = %.*g" % (3,s['ugs'][10,10]))
                 # print("ugn = %.*g" % (3,s['ugn'][10,10]))
@@ -2158,7 +2158,7 @@ class AeoLiS(IBmi):
 
                 elif p['boundary_offshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air
-                    yCt_i[:,0]  = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
+                    yCt_i[:,0]  = flux_to_concentration(p['constant_offshore_flux'], s['u'][:,0,i]) - Ct[:,0,i]
 
                 elif p['boundary_offshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -2176,7 +2176,7 @@ class AeoLiS(IBmi):
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air
-                    yCt_i[:,-1]  = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
+                    yCt_i[:,-1]  = flux_to_concentration(p['constant_onshore_flux'], s['u'][:,-1,i]) - Ct[:,-1,i]
 
                 elif p['boundary_onshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -2212,9 +2212,9 @@ class AeoLiS(IBmi):
 
                 # constant concentrations are not affected by lateral exchange
                 if p['boundary_offshore'] == 'constant':
-                    yCt_i[:,0] = p['constant_offshore_flux'] / s['u'][:,0,i] - Ct[:,0,i]
+                    yCt_i[:,0] = flux_to_concentration(p['constant_offshore_flux'], s['u'][:,0,i]) - Ct[:,0,i]
                 if p['boundary_onshore'] == 'constant':
-                    yCt_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i] - Ct[:,-1,i]
+                    yCt_i[:,-1] = flux_to_concentration(p['constant_onshore_flux'], s['u'][:,-1,i]) - Ct[:,-1,i]
                 
                 # print("ugs = %.*g" % (3,s['ugs'][10,10]))
                 # print("ugn = %.*g" % (3,s['ugn'][10,10]))
diff --git a/aeolis/utils.py b/aeolis/utils.py
index 5ee3927..ec5a0a6 100644
--- a/aeolis/utils.py
+++ b/aeolis/utils.py
@@ -170,6 +170,31 @@ def normalize(x: ndarray, ref:ndarray = None, axis: int =0, fill: float =0.):
     return y
 
 
+def flux_to_concentration(q, u):
+    '''Convert constant flux to concentration
+
+    The concentration is zero where the grain velocity is zero.
+
+    Parameters
+    ----------
+    q : float
+        Sediment flux
+    u : numpy.ndarray
+        Grain velocity
+
+    Returns
+    -------
+    numpy.ndarray
+        Sediment concentration
+
+    '''
+
+    C = np.zeros(u.shape)
+    C[u != 0.] = q / u[u != 0.]
+
+    return C
+
+
 def prevent_tiny_negatives(x: ndarray, max_error: float =1e-10, replacement: float =0.) -> ndarray:
     '''Replace tiny negative values in array
     
-- 
2.43.0


From adb698ad80f2d1c244359e2ef6702d2a5f329f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 079/101] fix: grain speed of Duran without threshold

---
 aeolis/threshold.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 14eb923..915bb01 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -107,6 +107,13 @@ def compute(s, p):
         s = compute_grainsize(s, p)
         s['uth'][:,:,:] = p['threshold_file'].reshape(s['zb'].shape)[:,:,np.newaxis]
 
+    else:
+
+        # the threshold of the grain size is still used for the grain speed
+        uth = s['uth'].copy()
+        s = compute_grainsize(s, p)
+        s['uth'][:,:,:] = uth
+
     #non-erodible layer (NEW)
     if p['th_nelayer']:
         s = non_erodible(s,p)
-- 
2.43.0


From 5f928f2f7aa5b24dcd59c900d808a31172256291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 080/101] fix: wet bed reset of dry cells lowered by
 avalanching

---
 aeolis/bed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 03199ca..0bff581 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -213,7 +213,8 @@ def wet_bed_reset(s, p):
         
         Tbedreset = p['dt_opt'] / p['Tbedreset']
         
-        ix = s['zs'] > (s['zb'] + 0.01)
+        # dry cells lowered by avalanching are not wet
+        ix = s['SWL'] > (s['zb'] + 0.01)
         s['zb'][ix] += (s['zb0'][ix] - s['zb'][ix]) * Tbedreset
             
     return s
-- 
2.43.0


From 715838b3b5760a741a0917b9209a2a18ac20b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 081/101] fix: one-dimensional grids with descending
 coordinates

---
 aeolis/gridparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index 91a9b55..6ed3288 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -197,7 +197,7 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
     # initialize y-dimension
     if ny == 0:
         s['dn'][:,:] = 1.
-        s['ds'][:, 1:] = np.diff(s['x'], axis=1)
+        s['ds'][:, 1:] = np.abs(np.diff(s['x'], axis=1))
         s['ds'][:, 0] = s['ds'][:, 1]
     else:
         s['ds'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
-- 
2.43.0


From cea3e7633a7c5dbb77edd9e9a0d4074e108101f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 082/101] fix: concentrations set through the interface are
 those that are returned

---
 aeolis/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index a4c29d4..e76a480 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -567,7 +567,10 @@ class AeoLiS(IBmi):
         '''
 
         if var in self.s:
-            self.s[var] = val
+            if var in ['Ct', 'Cu']:
+                self.s[var] = val * self.p['accfac']
+            else:
+                self.s[var] = val
         elif var in self.p:
             self.p[var] = val
 
-- 
2.43.0


From 8c0a2f8cbac32250118a3c7242f60c0d23317921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 083/101] fix: callback functions that do not exist are
 reported

---
 aeolis/model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index e76a480..f84d126 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2989,18 +2989,17 @@ class AeoLiSRunner(AeoLiS):
                 fname, func = callback.split(':')
                 if os.path.exists(fname):
                     mod = importlib.machinery.SourceFileLoader('callback', fname).load_module()
-                    if hasattr(mod, func):
+                    if callable(getattr(mod, func, None)):
                         return getattr(mod, func)
-                else:
-                    logger.error('Invalid callback definition [%s]', callback)
-                    raise IOError('Check definition in input file [%s]' % callback)
-                #     logger.error(f"Callback function not found: {fname}. Check the reference to the callback in the input file")
+
+            logger.error('Invalid callback definition [%s]', callback)
+            raise IOError('Check definition in input file [%s]' % callback)
         elif hasattr(callback, '__call__'):
             return callback
         elif callback is None:
             return callback
         else:
-            return None
+            logger.log_and_raise('Invalid callback definition [%s]' % str(callback), exc=ValueError)
 
 
     def print_progress(self, fraction:float=.01, min_interval:float=1., max_interval:float=60.) -> None:
-- 
2.43.0


From 840472662f18014908c1b4549efa2d7bc512d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 084/101] fix: progress of simulations that end at their start

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index f84d126..8d7931a 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3015,7 +3015,7 @@ class AeoLiSRunner(AeoLiS):
             Maximum time in seconds between subsequent progress prints (default: 60s)
         '''
 
-        p = (self.t-self.p['tstart']) / (self.p['tstop']-self.p['tstart'])
+        p = (self.t-self.p['tstart']) / (self.p['tstop']-self.p['tstart']) if self.p['tstop'] > self.p['tstart'] else 1.
         pr = np.ceil(p/fraction)*fraction
         t = time.time()
         interval = t - self.tlog
-- 
2.43.0


From 156bb11a206d56e01f3940f74807acfdafe2aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 085/101] fix: working directory is restored if a simulation
 fails

---
 aeolis/model.py |  4 +---
 aeolis/utils.py | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 8d7931a..a4fb3a6 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2493,6 +2493,7 @@ class AeoLiSRunner(AeoLiS):
             logger.log_and_raise('Configuration file not found [%s]' % self.configfile, exc=IOError)
 
 
+    @restore_cwd
     def run(self, callback=None, restartfile:str=None) -> None:
         '''Start model time loop
 
@@ -2599,9 +2600,6 @@ class AeoLiSRunner(AeoLiS):
 
         self.print_stats()
 
-        if self.cwd is not None:
-            os.chdir(self.cwd)
-
         logging.shutdown()
 
         logging.shutdown()
diff --git a/aeolis/utils.py b/aeolis/utils.py
index ec5a0a6..ea6f661 100644
--- a/aeolis/utils.py
+++ b/aeolis/utils.py
@@ -27,12 +27,27 @@ The Netherlands                  The Netherlands
 
 import re
 import numpy as np
+import functools
+import os
 #import numba
 #import numba_scipy
 import scipy
 from numpy import ndarray
 
 
+def restore_cwd(func):
+    '''Decorator that restores the current working directory, also if the function fails'''
+
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        cwd = os.getcwd()
+        try:
+            return func(*args, **kwargs)
+        finally:
+            os.chdir(cwd)
+    return wrapper
+
+
 def isiterable(x):
     '''Check if variable is iterable'''
 
-- 
2.43.0


From 7983265b15179a72df7a032b6fc8722dd83ecdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 086/101] fix: generated wind speeds if wind speed bins are not
 1 m/s

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index a4fb3a6..230e48e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3229,7 +3229,7 @@ class WindGenerator():
         self.state = next(j for j,v in enumerate(self.MTMcum[self.state]) if v > r1)
         self.states.append(self.state)
 
-        u = np.maximum(0., self.bins[self.state] - 0.5 + r2 * self.bin_size)
+        u = np.maximum(0., self.bins[self.state] + (r2 - 0.5) * self.bin_size)
         self.wind_speeds.append(u)
 
         self.t += self.dt
-- 
2.43.0


From 33d6f23b5f64502a0ceff1db6c47968a232a41f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 087/101] fix: number of wind speed bins of generated wind

---
 aeolis/model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 230e48e..9f7e0e7 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3142,9 +3142,7 @@ class WindGenerator():
         weib_scale=scale*float(mean_speed)/np.sqrt(np.pi);
 
         # wind speed bins
-        self.bins = np.arange(self.bin_size/2.0,
-                              float(max_speed) + self.bin_size/2.0,
-                              self.bin_size)
+        self.bins = (np.arange(n_states) + 0.5) * self.bin_size
 
         # distribution of probabilities, normalised
         fdpWind = self.weibullpdf(self.bins, weib_scale, weib_shape)
-- 
2.43.0


From 4d057c381b0b2c0e042a54d643118ff4cb9ca566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 088/101] fix: generated wind for random numbers close to one

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 9f7e0e7..a89e73c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3174,6 +3174,7 @@ class WindGenerator():
         N=np.diag([1.0/i for i in self.matmult4(G,p)])
         MTM=self.matmult4(N,self.matmult4(G,P))
         self.MTMcum = np.cumsum(MTM,1)
+        self.MTMcum[:,-1] = 1.0 # not less due to rounding
 
 
     def __getitem__(self, s:int)-> np.ndarray:
-- 
2.43.0


From 36b7cf89cd14e2181525a8c1fff13c4d228ac0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 089/101] fix: histogram of generated wind with recent
 matplotlib

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index a89e73c..d011beb 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3289,7 +3289,7 @@ class WindGenerator():
 
         """
         fig, axs = plt.subplots(figsize=(10,4))
-        axs.hist(self.wind_speeds, bins=self.bins, normed=True, color='k')
+        axs.hist(self.wind_speeds, bins=self.bins, density=True, color='k')
         axs.set_xlabel('wind speed [m/s]')
         axs.set_ylabel('occurence [-]')
         axs.grid()
-- 
2.43.0


From 268476349bfd2b169ad99d7cf54598814870309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 090/101] fix: onshore gradient boundary on grids with cells of
 varying size

---
 aeolis/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index d011beb..3f8846c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -899,8 +899,8 @@ class AeoLiS(IBmi):
                 Am2[:,-1] = 0.
                 Am1[:,-1] = -1.
             elif p['boundary_onshore'] == 'gradient':
-                Am2[:,-1] = s['ds'][:,-2] / s['ds'][:,-3]
-                Am1[:,-1] = -1. - s['ds'][:,-2] / s['ds'][:,-3]
+                Am2[:,-1] = s['ds'][:,-1] / s['ds'][:,-2]
+                Am1[:,-1] = -1. - s['ds'][:,-1] / s['ds'][:,-2]
             elif p['boundary_onshore'] == 'circular':
                 logger.log_and_raise('Cross-shore cricular boundary condition not yet implemented', exc=NotImplementedError)
             else:
@@ -1274,8 +1274,8 @@ class AeoLiS(IBmi):
                 Am2[:,-1] = 0.
                 Am1[:,-1] = -1.
             elif p['boundary_onshore'] == 'gradient':
-                Am2[:,-1] = s['ds'][:,-2] / s['ds'][:,-3]
-                Am1[:,-1] = -1. - s['ds'][:,-2] / s['ds'][:,-3]
+                Am2[:,-1] = s['ds'][:,-1] / s['ds'][:,-2]
+                Am1[:,-1] = -1. - s['ds'][:,-1] / s['ds'][:,-2]
             elif p['boundary_onshore'] == 'circular':
                 logger.log_and_raise('Cross-shore cricular boundary condition not yet implemented', exc=NotImplementedError)
             else:
-- 
2.43.0


From 01d25781e848d566adb9f79ae6c2ccd835595559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 091/101] fix: grain size distributions per layer in written
 configuration files

---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index a00a39d..e774feb 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -171,7 +171,7 @@ def write_configfile(configfile, p=None):
         fp.write('\n')
         
         for k, v in sorted(p.items()):
-            if (k.endswith('_file') or k.endswith('_mask')) and isiterable(v):
+            if (k.endswith('_file') or k.endswith('_mask')) and isiterable(v) or np.ndim(v) > 1:
                 fname = '%s.txt' % k.replace('_file', '')
                 backup(fname)
                 np.savetxt(fname, v)
-- 
2.43.0


From 7e607e17919a9d1124e431525fb1a074395ef96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 092/101] fix: bed composition file with whole numbers as grain
 size distribution

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 0bff581..bc667f1 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -83,7 +83,7 @@ def initialize(s, p):
     if isinstance(p['grain_dist'], str):
             logger.log_and_raise('Grain size file not recognized as array, check file path and whether all values have been filled in.', exc=ValueError) 
 
-    if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int': 
+    if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1:
         # Both float and int are included as options for the grain dist to make sure there is no error when grain_dist is filled in as 1 instead of 1.0. 
         for i in range(nl):
             gs = makeiterable(p['grain_dist'])
-- 
2.43.0


From d3bb93e6f94d1c04c0899f09bbd79684294881c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 093/101] fix: precision of coordinates in the output file

---
 aeolis/netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/netcdf.py b/aeolis/netcdf.py
index 9d8cdc6..89885f2 100644
--- a/aeolis/netcdf.py
+++ b/aeolis/netcdf.py
@@ -156,7 +156,7 @@ def initialize(outputfile, outputvars, s, p, dimensions):
         nc.variables['n'].valid_min = -np.inf
         nc.variables['n'].valid_max = np.inf
         
-        nc.createVariable('x', 'float32', (u'n', u's'))
+        nc.createVariable('x', 'float64', (u'n', u's'))
         nc.variables['x'].long_name = 'x-coordinate'
         nc.variables['x'].standard_name = 'projection_x_coordinate'
         nc.variables['x'].units = 'm'
@@ -166,7 +166,7 @@ def initialize(outputfile, outputvars, s, p, dimensions):
         nc.variables['x'].bounds = 'x_bounds'
         nc.variables['x'].grid_mapping = 'crs'
         
-        nc.createVariable('y', 'float32', (u'n', u's'))
+        nc.createVariable('y', 'float64', (u'n', u's'))
         nc.variables['y'].long_name = 'y-coordinate'
         nc.variables['y'].standard_name = 'projection_y_coordinate'
         nc.variables['y'].units = 'm'
-- 
2.43.0


From 3bdd71692bd88aaaaef552e13345d1695743ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 094/101] fix: mean grain size of distributions per layer or
 with weights that do not sum to one

---
 aeolis/threshold.py |  8 ++++----
 aeolis/utils.py     | 23 +++++++++++++++++++++++
 aeolis/wind.py      |  2 +-
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 915bb01..7a7841c 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -209,7 +209,7 @@ def compute_moisture(s, p):
     elif p['method_moist_threshold'].lower() == 'shao':
         s['uth'][ix] *= np.exp(22.7 * mg[ix])
     elif p['method_moist_threshold'].lower() == 'dong_2002':
-        d = np.sum(p['grain_size'] * p['grain_dist']) * 1000
+        d = calc_initial_mean_grain_size(p) * 1000
         if d < 0.135:
             K = 2.51
         elif d < 0.150:
@@ -224,7 +224,7 @@ def compute_moisture(s, p):
             K = 2.15
         s['uth'][ix] *= np.sqrt(1 + K * 100 * mg[ix])
     elif p['method_moist_threshold'].lower() == 'gregory_darwish':
-        d = np.sum(p['grain_size'] * p['grain_dist'])
+        d = calc_initial_mean_grain_size(p)
         wdiff = np.zeros(mg.shape)
         wdiff[ix] = np.maximum(mg[ix] - 0.5 * p['w1_5'],0)
         a1 = 6.12e-05
@@ -233,7 +233,7 @@ def compute_moisture(s, p):
         s['uth'][ix] *= np.sqrt(1 + mg[ix] + 6 / np.pi * a1 / (p['rhog'] * p['g'] * d ** 2) \
                                 + a2 / (p['rhow'] * p['g'] * d) * np.exp(-a3 * mg[ix] / p['w1_5']) * wdiff[ix])
     elif p['method_moist_threshold'].lower() == 'cornelis':
-        d = np.sum(p['grain_size'] * p['grain_dist'])
+        d = calc_initial_mean_grain_size(p)
         a1 = 0.013
         a2 = 1.7e-4
         a3 = 3e14
@@ -241,7 +241,7 @@ def compute_moisture(s, p):
                                       * (1 + a3 * 0.075 ** 2 * d / (10 ** 9 * np.exp(-6.5 * mg[ix] / p['w1_5']))) \
                                           * (p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d))
     elif p['method_moist_threshold'].lower() == 'dong_2007':
-        d = np.sum(p['grain_size'] * p['grain_dist'])   
+        d = calc_initial_mean_grain_size(p)   
         s['uth'][ix] = 0.16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + 478.2 * mg[ix] ** 1.52)
     else:
         logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist_threshold'], exc=ValueError)
diff --git a/aeolis/utils.py b/aeolis/utils.py
index ea6f661..a4f8175 100644
--- a/aeolis/utils.py
+++ b/aeolis/utils.py
@@ -416,6 +416,29 @@ def calc_grain_size(p, s, percent):
                 D[yi, xi] = f_linear(percent)
     return D
 
+def calc_initial_mean_grain_size(p):
+    '''Calculate mean grain size based on the initial grain size distribution
+
+    The weights in the grain size distribution do not need to sum to
+    unity. The distribution of the upper layer is used in case
+    distributions are given per layer.
+
+
+    Parameters
+    ----------
+    p : dict
+        Model configuration parameters
+
+    Returns
+    -------
+    float
+        mean grain size
+
+    '''
+    weights = p['grain_dist'][0] if p['grain_dist'].ndim > 1 else p['grain_dist']
+    return np.sum(p['grain_size'] * normalize(weights))
+
+
 def calc_mean_grain_size(p, s):
     '''Calculate mean grain size based on mass in each fraction
 
diff --git a/aeolis/wind.py b/aeolis/wind.py
index 8df226f..6b7bfbe 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -179,7 +179,7 @@ def calculate_z0(p, s):
     elif p['method_roughness'] == 'constant_nikuradse':
         z0    = p['k'] / 30   # This equaion follows the definition of the bed roughness as introduced by Nikuradse
     elif p['method_roughness'] == 'mean_grainsize_initial': #(based on Nikuradse and Bagnold, 1941), can only be applied in case with uniform grain size and is most applicable to a flat bed
-        z0    = np.sum(p['grain_size']*p['grain_dist']) / 30.
+        z0    = calc_initial_mean_grain_size(p) / 30.
     elif p['method_roughness'] == 'mean_grainsize_adaptive': # makes Nikuradse roughness method variable through time and space depending on grain size variations
         z0    = calc_mean_grain_size(p, s) / 30.
     elif p['method_roughness'] == 'median_grainsize_adaptive': # based on Sherman and Greenwood, 1982 - only appropriate for naturally occurring grain size distribution
-- 
2.43.0


From 0aaf86e54ecc884c06e4837db2a22107914b46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 095/101] fix: callback found in the script of an earlier model

---
 aeolis/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 3f8846c..affbb1b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -28,8 +28,10 @@ The Netherlands                  The Netherlands
 from __future__ import absolute_import, division
 
 import os
+import sys
 import importlib.machinery
 import importlib.metadata
+import importlib.util
 import time
 import glob
 import logging
@@ -2986,7 +2988,10 @@ class AeoLiSRunner(AeoLiS):
             if ':' in callback:
                 fname, func = callback.split(':')
                 if os.path.exists(fname):
-                    mod = importlib.machinery.SourceFileLoader('callback', fname).load_module()
+                    loader = importlib.machinery.SourceFileLoader('callback', fname)
+                    mod = importlib.util.module_from_spec(importlib.util.spec_from_loader('callback', loader))
+                    sys.modules['callback'] = mod
+                    loader.exec_module(mod)
                     if callable(getattr(mod, func, None)):
                         return getattr(mod, func)
 
-- 
2.43.0


From b22608e7ecc343113f65648fc246cbe6eda33022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 096/101] fix: output file lost by a run with a restart file
 that cannot be read

---
 aeolis/model.py | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index affbb1b..319cdc1 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2579,6 +2579,9 @@ class AeoLiSRunner(AeoLiS):
         if callback is not None:
             logger.info('Applying callback function: %s()\n', callback.__name__)
 
+        # check restartfile before the output file is overwritten
+        self.read_restartfile(restartfile)
+
         # initialize model
         self.initialize()
         self.load_hotstartfiles()
@@ -2928,25 +2931,39 @@ class AeoLiSRunner(AeoLiS):
             True if model state from restartfile is loaded successfully
         '''
 
-        if restartfile:
-            if os.path.exists(restartfile):
-                # Load model state
-                with open(restartfile, 'rb') as fp:
-                    state = pickle.load(fp)
+        state = self.read_restartfile(restartfile)
+        if state is not None:
+            self.t = state['t']
+            self.dt = state['dt']
+            self.p = state['p']
+            self.s = state['s']
+            self.l = state['l']
+            self.c = state['c']
+
+            self.trestart = self.t
+
+            return True
 
-                    self.t = state['t']
-                    self.dt = state['dt']
-                    self.p = state['p']
-                    self.s = state['s']
-                    self.l = state['l']
-                    self.c = state['c']
 
-                    self.trestart = self.t
+    def read_restartfile(self, restartfile:str) -> Union[dict, None]:
+        '''Read model state from restart file without changing the model
 
-                    return True
+        Parameters
+        ----------
+        restartfile : str
+            Path to previously written restartfile.
+
+        Returns
+        -------
+            Model state or None if no restart file is given
+        '''
+
+        if restartfile:
+            if os.path.exists(restartfile):
+                with open(restartfile, 'rb') as fp:
+                    return pickle.load(fp)
             else:
                 logger.log_and_raise('Restart file not found [%s]' % restartfile, exc=IOError)
-                return False
 
 
     def dump_restartfile(self) -> None:
-- 
2.43.0


From 218528ebb50762ddbea339f4867d944a86cff589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 097/101] fix: separation bubble at the upwind edge of the grid
 took the bed slope from the downwind edge

---
 aeolis/shear.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 21da332..8c0592e 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -421,7 +421,7 @@ class WindShear:
         # Better solution for cleaner separation bubble, but no working Barchan dune (yet)
         p = 1
         bubble[:,p:] = bubble[:,:-p]
-        bubble[:,-p:] = 0
+        bubble[:,:p] = 0
         
         bubble = bubble.astype(int)
         
@@ -451,7 +451,8 @@ class WindShear:
                 zbrink = z[j,i] - z[j,i+idir*5+idir*np.where(ix_neg)[0][0]]
             
             # Better solution and cleaner separation bubble, but no working Barchan dune (yet)
-            dzdx0 = (z[j,i] - z[j,i-3]) / (3.*dx)
+            i0 = max(i-3, 0)
+            dzdx0 = (z[j,i] - z[j,i0]) / ((i-i0)*dx)
             
             a = dzdx0 / c
             ls = np.minimum(np.maximum((3.*zbrink/(2.*c) * (1. + a/4. + a**2/8.)), 0.1), 200.)
@@ -487,7 +488,7 @@ class WindShear:
                     zbrink = zsep_fft[i] - zsep_fft[i+idir*5+idir*np.where(ix_neg)[0][0]]
                 
                 # First order polynom
-                dzdx1 = (zsep_fft[i] - zsep_fft[i-3])/(3.*dx)
+                dzdx1 = (zsep_fft[i] - zsep_fft[i0])/((i-i0)*dx)
                 
                 a = dzdx1 / c
             
-- 
2.43.0


From 4762368a7f6fde05cd25fab1c1a9a7c9b63290a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:43 +0000
Subject: [PATCH 098/101] fix: filtered separation bubble failed on
 computational grids that are wider than long

---
 aeolis/shear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 8c0592e..d4c56ab 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -379,8 +379,7 @@ class WindShear:
         y = gc['y']
         z = gc['z']
                 
-        nx = len(gc['z'][1])
-        ny = len(gc['z'][0])
+        ny, nx = gc['z'].shape
         dx = gc['dx']
         dy = gc['dy']
     
-- 
2.43.0


From 75ef62324e2f8ac91a555ada51ed32f7744034c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:25 +0000
Subject: [PATCH 099/101] fix: water levels of an external model without any
 wet cell

---
 aeolis/hydro.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 5dc77a3..9411284 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -87,10 +87,11 @@ def interpolate(s, p, t):
 
             # The dry points have to be filtered out, to prevent issues with run-up calculation later
             iwet = s['zs'] - s['zb'] > 2. * p['eps']
-            s['SWL'][~iwet] = np.NaN
-            mask = np.where(~np.isnan(s['SWL']))
-            interp = NearestNDInterpolator(np.transpose(mask), s['SWL'][mask])
-            s['SWL'] = interp( * np.indices(s['SWL'].shape))
+            if np.any(iwet):
+                s['SWL'][~iwet] = np.NaN
+                mask = np.where(~np.isnan(s['SWL']))
+                interp = NearestNDInterpolator(np.transpose(mask), s['SWL'][mask])
+                s['SWL'] = interp( * np.indices(s['SWL'].shape))
 
             # fig, ax = plt.subplots()
             # pc = plt.pcolormesh(s['x'], s['y'], s['SWL'])#, vmin=1, vmax=1.3)
-- 
2.43.0


From cc8e6d94dbab1f55faf426812d94e5fc4144cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 100/101] fix: mixing of bed layers of different thickness gave
 all of them the same mass

---
 aeolis/bed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index bc667f1..b37a2b9 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -180,7 +180,9 @@ def mixtoplayer(s, p):
                                        # .repeat(nx, axis=1) \
                                        # .repeat(nl, axis=2)
 
-            mass1 = np.nanmean(mass, axis=2, keepdims=True).repeat(nl, axis=2)
+            # same composition in all layers, while each layer keeps its mass
+            gd = normalize(np.nansum(mass, axis=2, keepdims=True), axis=3)
+            mass1 = gd * s['mass'].sum(axis=3, keepdims=True)
             # mass2 = gd * s['thlyr'][:,:,:,np.newaxis].repeat(nf, axis=-1)
             mass = mass1 * f + mass * (1. - f)
 
-- 
2.43.0


From 4a39d791828dc5dbf845d7200285068ea963bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 101/101] fix: salt content with a layer thickness per layer

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 9411284..c71b2b0 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -424,7 +424,7 @@ def update(s, p, dt,t):
         s['salt'][ ix,0] = 1.
         s['salt'][~ix,0] *= np.exp(-F2 * dt)
         pcp = s['meteo']['RH'] / 3600. / 1000. if 'meteo' in s else 0. # convert precipitation from mm/hr to m/s
-        s['salt'][:,:,0] = np.minimum(1., s['salt'][:,:,0] + pcp * dt / p['layer_thickness'])
+        s['salt'][:,:,0] = np.minimum(1., s['salt'][:,:,0] + pcp * dt / s['thlyr'][:,:,0])
 
     return s
 
-- 
2.43.0

