From 8418381d0b3c542913ad2bfbaa9d5c7708fbfdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:22 +0000
Subject: [PATCH 01/21] fix: do not modify the input of fourier_fftlog and qwe
 in place

---
 empymod/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4235f51..a4b9469 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -699,7 +699,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     if mu > 0:  # Sine
         a = -fEM.imag
     else:       # Cosine
-        a = fEM.real
+        a = fEM.real.copy()
     n = a.size
 
     # 1. Amplitude and Argument of kr^(-2 i y) U_mu(q + 2 i y)
@@ -1066,7 +1066,7 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
     if hasattr(inp, '__call__'):  # Hankel and not spline
         EM0 = inp(0, lambd, off, ang_fact)
     else:                         # Fourier or Hankel with spline
-        EM0 = inp[:, 0]
+        EM0 = inp[:, 0].copy()
     EM0 *= getweights(0, intervals)
 
     # 2. Pre-allocate arrays and initialize
-- 
2.43.0


From b593d5326af704e88634937be370fd790e23e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 02/21] fix: reject invalid Hankel transform names that are
 part of 'quad'

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 74cc87e..f41dcc9 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -657,7 +657,7 @@ def check_hankel(ht, htarg, verb):
             if targ['limit']:
                 print(f"     > limit (quad):  {targ['limit']}")
 
-    elif ht in 'quad':  # QUAD
+    elif ht == 'quad':  # QUAD
 
         # rtol : 1e-12
         targ['rtol'] = _check_var(
-- 
2.43.0


From b10bc29c862400d8518008d4f1d7eaee6c38bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 03/21] fix: use the internal configuration for magnetic
 sources/receivers in dipole_k

---
 empymod/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 81c0b17..09cd5dd 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1439,7 +1439,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
 
     # Get angle-dependent factor
     off, angle = get_off_ang(src, rec, nsrc, nrec, verb)
-    ang_fact = kernel.angle_factor(angle, ab, msrc, mrec)
+    ang_fact = kernel.angle_factor(angle, ab_calc, msrc, mrec)
 
     # Get layer number in which src and rec reside (lsrc/lrec)
     lsrc, zsrc = get_layer_nr(src, depth)
@@ -1473,7 +1473,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
         # Collect output
         if J1 is not None:
             PJ1 += ang_fact[:, np.newaxis]*J1
-            if ab in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
+            if ab_calc in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
                 # J2(kr) = 2/(kr)*J1(kr) - J0(kr)
                 PJ1 /= off[:, None]
         if J0 is not None:
-- 
2.43.0


From 2e272181e7193fc9b89b3ef8eefeebdc247b16ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 04/21] fix: check the shape of parameters that have to be
 scalars

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index f41dcc9..1319845 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -2157,7 +2157,7 @@ def _check_shape(var, name, shape, shape2=None):
 def _check_var(var, dtype, ndmin, name, shape=None, shape2=None):
     r"""Return variable as array of dtype, ndmin; shape-checked."""
     var = np.array(var, dtype=dtype, copy=True, ndmin=ndmin)
-    if shape:
+    if shape is not None:
         _check_shape(var, name, shape, shape2)
     return var
 
-- 
2.43.0


From 0b7c61ca23952df0d7a5644d836baf74b0800cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 05/21] fix: apply no gain in gpr if gain=None, as documented

---
 empymod/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 09cd5dd..e1ff3e6 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1281,7 +1281,8 @@ def gpr(src, rec, depth, res, freqtime, cf, gain=None, ab=11, aniso=None,
     conv_warning(conv, ftarg, 'Fourier', verb)
 
     # Apply gain; make pure real
-    EM *= (1 + np.abs((time*10**9)**gain))[:, None]
+    if gain is not None:
+        EM *= (1 + np.abs((time*10**9)**gain))[:, None]
     EM = EM.real
 
     # Reshape for number of sources
-- 
2.43.0


From c7df08168798cd18615ed9c891ebdb964b6d89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 06/21] fix: account for negative source strengths in bipole
 (scaling)

---
 empymod/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index e1ff3e6..4d991e2 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -606,7 +606,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
 
             # Scale signal for src-strength and src/rec-lengths
             src_rec_w = 1
-            if strength > 0:
+            if strength != 0:
                 src_rec_w *= np.repeat(src_w, irec)
                 src_rec_w *= np.tile(rec_w, isrc)
             sEM *= src_rec_w
-- 
2.43.0


From 39c67ac225129d730c28d072f37c47a859d2e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 07/21] fix: account for negative source strengths in
 get_azm_dip

---
 empymod/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 1319845..5df634f 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1859,9 +1859,9 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
         # If dipole, g_w are ones
         g_w = np.ones(tinp[0].size)
 
-        # If dipole, inp_w are ones, unless strength > 0
+        # If dipole, inp_w are ones, unless strength != 0
         inp_w = np.ones(tinp[0].size)
-        if name == 'src' and strength > 0:
+        if name == 'src' and strength != 0:
             inp_w *= strength
 
         # Collect output
@@ -1918,7 +1918,7 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
 
         # Scaling
         inp_w = np.ones(dl.size)
-        if strength > 0:  # If strength > 0, we scale it by dipole-length
+        if strength != 0:  # If strength != 0, we scale it by dipole-length
             inp_w *= dl
             if name == 'src':  # If source, additionally by source strength
                 inp_w *= strength
-- 
2.43.0


From 14d7e9f41f21272576acd2f43d6cd33ca1916dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 08/21] fix: accept lists for freqtime in the frequency-domain
 halfspace solution

---
 empymod/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 4d991e2..677abdb 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1157,7 +1157,7 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
     if solution[0] == 'd':
         # To make it work with Laplace domain calculations.
         if signal is None:
-            if np.any(freqtime > 0):
+            if np.any(np.asarray(freqtime) > 0):
                 freqtime = 2j*np.pi*freq
             else:
                 freqtime = freq
-- 
2.43.0


From f28861176c8c4312bf68c3748759b3c70917cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 09/21] fix: relate non-physical up-down terms in tmtemod to
 the layer, not to z=0

---
 empymod/scripts/tmtemod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/tmtemod.py b/empymod/scripts/tmtemod.py
index 1c9a3b6..bab8177 100644
--- a/empymod/scripts/tmtemod.py
+++ b/empymod/scripts/tmtemod.py
@@ -537,7 +537,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTE[0] += npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTE[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*ddepth[lrec]))
     PTE[3] += npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # TM modes TM[uu, ud, du, dd]
@@ -545,7 +545,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTM[0] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTM[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*ddepth[lrec]))
     PTM[3] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # 3.5 Reshape for number of sources
-- 
2.43.0


From c3a3370f47c6ed5e6199d2bec1db10775f6f2d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 10/21] fix: support ab given as string in ip_and_q

---
 empymod/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 677abdb..01926d4 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1570,11 +1570,12 @@ def ip_and_q(**kwargs):
     new = copy.deepcopy(kwargs)
 
     # For the primary field, use the co-planar field of source configuration.
-    if new['ab'] in [44, 54, 64]:
+    ab = int(new['ab'])
+    if ab in [44, 54, 64]:
         new['ab'] = 44
-    elif new['ab'] in [45, 55, 65]:
+    elif ab in [45, 55, 65]:
         new['ab'] = 55
-    elif new['ab'] in [46, 56, 66]:
+    elif ab in [46, 56, 66]:
         new['ab'] = 66
 
     # Take only the first value of each parameter, and set depth to empty.
-- 
2.43.0


From 9876a20a9c00031079f77c233c41be784df12c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 11/21] fix: use the provided arguments in main instead of
 sys.argv

---
 empymod/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/__main__.py b/empymod/__main__.py
index 3a60842..d3d4239 100644
--- a/empymod/__main__.py
+++ b/empymod/__main__.py
@@ -90,7 +90,7 @@ def main(args=None):
         print(utils.Report())
 
     # Info if not at list routine and input provided.
-    elif len(sys.argv) < 3:
+    elif len(args) < 2:
         print(f"{parser.description}\n=> Type `empymod --help` for "
               f"more info (empymod v{utils.__version__}).")
 
-- 
2.43.0


From f60484e535c53e6cf5a3665db729912ca8a546c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 12/21] fix: read the header in load_data with the encoding
 used to write it

---
 empymod/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index 1a73d2b..30257cb 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -222,7 +222,7 @@ def load_data(fname):
 
         # Read header for shape and dtype.
         meta = {}
-        with open(fname, "r") as f:
+        with open(fname, "r", encoding="utf-8") as f:
             for line in f:
                 if "data" in line:
                     break
-- 
2.43.0


From 312062ce50d92fd0ec095c527a0c4fcffd8172b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 13/21] fix: write valid JSON for empty input in save_input

---
 empymod/io.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/empymod/io.py b/empymod/io.py
index 30257cb..365f7dc 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -63,12 +63,11 @@ def save_input(fname, data, **kwargs):
 
         # For brevity yet readability, we create our custom formatted json,
         # where each model parameter is on a new line.
-        out = "{"
+        out = []
         for k, v in data.items():
-            out += "\n  "
-            out += json.dumps({k: v}, cls=_ComplexNumPyEncoder)[1:-1]
-            out += ","
-        out = out[:-1] + "\n}"
+            out.append(
+                "\n  " + json.dumps({k: v}, cls=_ComplexNumPyEncoder)[1:-1])
+        out = "{" + ",".join(out) + "\n}"
 
         # Write it to disk.
         with open(fname, "w") as f:
-- 
2.43.0


From d344abdb234526ee96522fb04110fb2457f485ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 14/21] fix: support Laplace-domain computations with QWE and
 QUAD

---
 empymod/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index a4b9469..a599c3f 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -416,6 +416,10 @@ def hankel_qwe(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
         fEM, kcount, conv = qwe(rtol, atol, maxint, getkernel, intervals,
                                 lambd, off, ang_fact)
 
+    # Real-valued in the Laplace domain
+    if not np.iscomplexobj(etaH):
+        fEM = fEM.real
+
     return fEM, kcount, conv
 
 
@@ -498,6 +502,10 @@ def hankel_quad(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
                           off[i], ang_fact[i], iinp)
         conv *= tc
 
+    # Real-valued in the Laplace domain
+    if not np.iscomplexobj(etaH):
+        fEM = fEM.real
+
     # Return the electromagnetic field
     # Second argument (1) is the kernel count, last argument is only for QWE.
     return fEM, 1, conv
-- 
2.43.0


From 21fc7ba5cf604e4c95969ef073e48f2f51b01533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:44 +0000
Subject: [PATCH 15/21] fix: sqrt-sign in fullspace for magnetic source and
 receiver without displacement currents

---
 empymod/kernel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index df13c48..8262efb 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -831,11 +831,10 @@ def fullspace(off, angle, zsrc, zrec, etaH, etaV, zetaH, zetaV, ab, msrc,
 
         term3 = -zetaH[:, None]*coo1*coo2/(off*off)*(uGamTM - uGamTE)
 
-        term4 = -np.sqrt(zetaH)[:, None]*(2*coo1*coo2/(off*off) - delta)
-        if np.any(zetaH.imag < 0):  # We need the sqrt where Im > 0.
-            term4 *= -1     # This if-statement corrects for it.
+        # sqrt(zetaH)/sqrt(etaH), independent of the sign-switch for MM.
+        term4 = -zetaH[:, None]*(2*coo1*coo2/(off*off) - delta)
         term4 *= np.exp(-lGamTM[:, None]*RTM) - np.exp(-lGamTE[:, None]*RTE)
-        term4 /= 4*np.pi*np.sqrt(etaH)[:, None]*off*off
+        term4 /= 4*np.pi*np.sqrt(zetaH*etaH)[:, None]*off*off
 
         gin = term1 + term2 + term3 + term4
 
-- 
2.43.0


From 1ca03c4a1c26be250734c0aae37299fe5e34a9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 16/21] fix: QWE returned the extrapolation before the
 converged one

---
 empymod/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index a599c3f..7582744 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1118,12 +1118,12 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
             relErr[om, i-1] = np.abs(rErr)
             abserr = atol/np.abs(extrap[om, i-1])
 
-            # Update booleans
-            om[om] *= relErr[om, i-1] >= rtol + abserr
-
             # Store in EM
             EM[om] = extrap[om, i-1]
 
+            # Update booleans
+            om[om] *= relErr[om, i-1] >= rtol + abserr
+
         if (~om).all():
             break
 
-- 
2.43.0


From 768692ad99f6c3d5a4336622d1da1c94c690e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 17/21] fix: sum the quadrature points of each interval in
 fourier_qwe

---
 empymod/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 7582744..7104f61 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -655,6 +655,7 @@ def fourier_qwe(fEM, time, freq, ftarg):
     # Carry out QWE for 'well-behaved' intervals
     if np.any(doqwe):
         sEM = tEM_int(np.log(Bx/time[doqwe, None]))*SS
+        sEM = np.sum(np.reshape(sEM, (doqwe.sum(), nquad, -1), order='F'), 1)
         tEM[doqwe], _, tc = qwe(rtol, atol, maxint, sEM, intervals[doqwe, :])
         conv *= tc
 
-- 
2.43.0


From 483fc2726b4c2abf076d9195c28096d760af0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 18/21] fix: last coefficients in fourier_fftlog (odd n; even n
 with bias)

---
 empymod/transform.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 7104f61..f43b423 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -759,13 +759,13 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     a = sp.fftpack.rfft(a)
 
     # 4.b
-    m = np.arange(1, n//2, dtype=np.int64)  # index variable
+    m = np.arange(1, (n+1)//2, dtype=np.int64)  # index variable
     if q == 0:  # unbiased (q = 0) transform
         # multiply by (kr)^[- i 2 m pi/(n dlnr)] U_mu[i 2 m pi/(n dlnr)]
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[m-1] - ai*argsin[m-1]
+        a[2*m] = ar*argsin[m-1] + ai*argcos[m-1]
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
             ar = argcos[-1]
@@ -776,16 +776,16 @@ def fourier_fftlog(fEM, time, freq, ftarg):
         # phase
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[m-1] - ai*argsin[m-1]
+        a[2*m] = ar*argsin[m-1] + ai*argcos[m-1]
 
         a[0] *= argcos1
-        a[2*m-1] *= argamp[:-1]
-        a[2*m] *= argamp[:-1]
+        a[2*m-1] *= argamp[m-1]
+        a[2*m] *= argamp[m-1]
 
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
-            m = int(n/2)-3
+            m = int(n/2)
             ar = argcos[m-1]*argamp[m-1]
             a[-1] *= ar
 
-- 
2.43.0


From 4f58958452ebbbfa699c9fe03eb1fa867a08c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 19/21] fix: analytical ignores the permittivities for the
 diffusive solutions, as documented

---
 empymod/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/empymod/model.py b/empymod/model.py
index 01926d4..2999b59 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1123,6 +1123,10 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
                         verb)
     depth, res, aniso, epermH, epermV, mpermH, mpermV, _ = model
 
+    # The diffusive solutions ignore displacement currents
+    if solution in ['dfs', 'dhs', 'dsplit', 'dtetm']:
+        epermH, epermV = 0*epermH, 0*epermV
+
     # Check frequency => get etaH, etaV, zetaH, and zetaV
     frequency = check_frequency(freqtime, res, aniso, epermH, epermV, mpermH,
                                 mpermV, verb)
-- 
2.43.0


From 54329a36816802fc6326537908c6d960a6396a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:46 +0000
Subject: [PATCH 20/21] fix: documented default of maxint for the Hankel QWE is
 100

---
 empymod/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 2999b59..fa5e474 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -238,7 +238,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
           - ``atol``: absolute tolerance (default: 1e-30)
           - ``nquad``: order of Gaussian quadrature (default: 51)
           - ``maxint``: maximum number of partial integral intervals
-            (default: 40)
+            (default: 100)
           - ``pts_per_dec``: points per decade; (default: 0)
 
             - If 0, no interpolation is used.
-- 
2.43.0


From e044d70ece46909e915aae42181275dc4aff43ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 21/21] fix: on-axis half-space solutions (min_off=0): sign of
 the TE terms, nan in the impulse airwave

---
 empymod/kernel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index 8262efb..84c16f4 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -1111,8 +1111,8 @@ def halfspace(off, angle, zsrc, zrec, etaH, etaV, freqtime, ab, signal,
         # TE-mode for numerical singularities rh=0 (hm!=0)
         g1m[izr*iih] = np.zeros(np.shape(g1m[izr*iih]), dtype=dtype)
         g1p[izr*iih] = -np.sqrt(mu_0*res)*delta/(2*np.pi*hp**2)
-        g2m[izr*iih] = mu_0*delta/(8*np.pi*hm)
-        g2p[izr*iih] = mu_0*delta/(8*np.pi*hp)
+        g2m[izr*iih] = -mu_0*delta/(8*np.pi*hm)
+        g2p[izr*iih] = -mu_0*delta/(8*np.pi*hp)
 
         # Bessel functions for airwave
         def BI(gamH, hp, nr, xim):
@@ -1181,7 +1181,8 @@ def halfspace(off, angle, zsrc, zrec, etaH, etaV, freqtime, ab, signal,
             thp = mu_0*hp**2/(4*res)
             trh = mu_0*rh**2/(8*res)
             P1 = (mu_0**2*hp*np.exp(-thp/time))/(res*32*np.pi*time**3)
-            P2 = 2*(delta - (x*y)/rh**2)*sp.special.ive(1, trh/time)
+            rh2 = np.where(izr, 1.0, rh**2)  # x*y = 0 where rh = 0
+            P2 = 2*(delta - (x*y)/rh2)*sp.special.ive(1, trh/time)
             P3 = mu_0/(2*res*time)*(rh**2*delta - x*y)-delta
             P4 = sp.special.ive(0, trh/time) - sp.special.ive(1, trh/time)
 
-- 
2.43.0

