From ce39d5f7ee9d47b117c3a032298b5dbaa8d60da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 001/112] fix: bilinear interpolation at grid edges and on cell
 edges next to invalid nodes

Points on the outer edges of the grid raised an error (eastern edge) or were
flagged as out of bounds, and points on a cell edge between two invalid nodes
divided zero by zero and returned a valid NaN.
---
 pyTMD/interpolate.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index e3e9640..f2ed02b 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -72,7 +72,7 @@ def bilinear(
         idata.mask = np.zeros_like(idata, dtype=bool)
     # find valid points (within bounds)
     valid, = np.nonzero((lon >= ilon.min()) & (lon <= ilon.max()) &
-        (lat > ilat.min()) & (lat < ilat.max()))
+        (lat >= ilat.min()) & (lat <= ilat.max()))
     # interpolate gridded data values to data
     npts = len(lon)
     # allocate to output interpolated data array
@@ -83,8 +83,9 @@ def bilinear(
     # for each valid point
     for i in valid:
         # calculating the indices for the original grid
-        ix, = np.nonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] > lon[i]))
-        iy, = np.nonzero((ilat[0:-1] <= lat[i]) & (ilat[1:] > lat[i]))
+        # (the last grid cell includes its outer edge)
+        ix = np.nonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] >= lon[i]))[0][-1:]
+        iy = np.nonzero((ilat[0:-1] <= lat[i]) & (ilat[1:] >= lat[i]))[0][-1:]
         # corner data values for adjacent grid cells
         IM = np.ma.zeros((4), fill_value=fill_value, dtype=dtype)
         IM.mask = np.ones((4), dtype=bool)
@@ -108,9 +109,10 @@ def bilinear(
         elif (np.isclose(lat[i],ilat[iy+1]) & np.isclose(lon[i],ilon[ix+1])):
             data.data[i] = np.squeeze(idata.data[iy+1,ix+1]).astype(dtype)
             data.mask[i] = np.squeeze(idata.mask[iy+1,ix+1])
-        elif np.any(np.isfinite(IM) & (~IM.mask)):
+        elif np.any(np.isfinite(IM) & (~IM.mask) & (WM > 0)):
             # find valid indices for data summation and weight matrix
-            ii, = np.nonzero(np.isfinite(IM) & (~IM.mask))
+            # (points on a cell edge have no weight from the opposite nodes)
+            ii, = np.nonzero(np.isfinite(IM) & (~IM.mask) & (WM > 0))
             # calculate interpolated value for i
             data.data[i] = np.sum(WM[ii]*IM[ii])/np.sum(WM[ii])
             data.mask[i] = np.all(IM.mask[ii])
-- 
2.43.0


From 74557f7e7b075fb2dafb58565efb3d1cb8bbd9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 002/112] fix: appending a constituent again must not list it
 twice

A second append of the same name replaced the value but added a duplicate
field, so removing it left a name without a value behind.
---
 pyTMD/io/constituents.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/constituents.py b/pyTMD/io/constituents.py
index e8308f7..a238013 100644
--- a/pyTMD/io/constituents.py
+++ b/pyTMD/io/constituents.py
@@ -62,8 +62,9 @@ class constituents:
         constituent: np.ndarray
             Tide model constituent (complex form)
         """
-        # append field
-        self.fields.append(field)
+        # append field (keeping a single entry for each constituent)
+        if field not in self.fields:
+            self.fields.append(field)
         setattr(self, field, constituent)
         return self
 
-- 
2.43.0


From d9e148b23ab8cda3fad11f356f35d2608f02d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 003/112] fix: nested iterations over constituents shared one
 position

Iterating within an iteration over the same constituents ended the outer loop
early, as the position was kept on the container.
---
 pyTMD/io/constituents.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/constituents.py b/pyTMD/io/constituents.py
index a238013..8dafe9a 100644
--- a/pyTMD/io/constituents.py
+++ b/pyTMD/io/constituents.py
@@ -289,8 +289,10 @@ class constituents:
     def __iter__(self):
         """Iterate over constituents
         """
-        self.__index__ = 0
-        return self
+        # each iterator keeps its own position (e.g. for nested loops)
+        iterator = copy.copy(self)
+        iterator.__index__ = 0
+        return iterator
 
     def __next__(self):
         """Get the next constituent
-- 
2.43.0


From 5fb5376bafcf4edf0583c949ccac8a826d7b2ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 004/112] fix: decode numeric Doodson numbers that end in zeros

The shortest text of a float drops trailing zeros (e.g. 165.550), so digits
were lost or shifted when converting back to Cartwright numbers.
---
 pyTMD/arguments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 8897342..d684cfe 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1619,9 +1619,11 @@ def _from_doodson_number(DO: str | float | np.ndarray, **kwargs):
         Doodson coefficients (Cartwright numbers) for constituent
     """
     # convert from Doodson number to Cartwright numbers
+    # numbers are always written with their three decimals
+    DO = str(DO) if isinstance(DO, str) else f'{float(DO):07.3f}'
     # replace 10 with X and 11 with E (Doodson convention)
     coef = np.array([c.replace('X', '10').replace('E', '11')
-        for c in re.findall(r'\w', str(DO).zfill(7))], dtype=int)
+        for c in re.findall(r'\w', DO.zfill(7))], dtype=int)
     # remove 5 from values following Doodson convention
     coef[1:] -= 5
     return coef
-- 
2.43.0


From 54f7e8f70fdbb63419b8b4df8eb3b2a1af57ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 005/112] fix: reject coefficients without an extended Doodson
 digit

Coefficients below -8 (2t7, s9, s10, s11, s12) wrapped around the digits and
were encoded as if they were large positive numbers.
---
 pyTMD/arguments.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index d684cfe..db36cdf 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1594,6 +1594,8 @@ def _to_extended_doodson(coef: list | np.ndarray, **kwargs):
     XDO: string
         Extended Doodson number for constituent
     """
+    # default keyword arguments
+    kwargs.setdefault('raise_error', True)
     # assert length and verify array
     coef = np.array(coef).astype(int)
     # digits for UKHO Extended Doodson number
@@ -1601,6 +1603,11 @@ def _to_extended_doodson(coef: list | np.ndarray, **kwargs):
     # A - P = 1 to 15
     # R - Y = -8 to -1
     digits = 'RSTUVWXYZABCDEFGHIJKLMNOP'
+    # check for unsupported constituents (without a digit)
+    if np.any(coef < -8) or np.any(coef > 16):
+        if kwargs['raise_error']:
+            raise ValueError('Unsupported constituent')
+        return None
     XDO = ''.join([digits[v+8] for v in coef])
     return np.str_(XDO)
 
-- 
2.43.0


From 0a23f7a506a2966199e73b75df88dc3605b4a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 006/112] fix: compare nodal constituents with whole names, not
 substrings

---
 pyTMD/arguments.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index db36cdf..213456b 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -772,7 +772,7 @@ def nodal(
             # Linear 3rd degree terms
             term1 = 0.1705*sinn - 0.0035*sin2n - 0.0176*sin2p
             term2 = 1.0 + 0.1705*cosn - 0.0035*cos2n - 0.0176*cos2p
-        elif c in ("l2'"):
+        elif c in ("l2'",):
             # Linear 3rd degree terms
             term1 = -0.2495*sinn
             term2 = 1.0 + 0.1315*cosn
@@ -809,42 +809,42 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('2k2'):
+        elif c in ('2k2',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('tk1'):
+        elif c in ('tk1',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]
             u[:,i] = -utmp[:,0]
             continue
-        elif c in ('2oop1'):
+        elif c in ('2oop1',):
             # compound tides calculated using recursion
             parents = ['oo1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('oq2'):
+        elif c in ('oq2',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('2oq1'):
+        elif c in ('2oq1',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2 * ftmp[:,1]
             u[:,i] = 2.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('ko2'):
+        elif c in ('ko2',):
             # compound tides calculated using recursion
             parents = ['o1','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -872,7 +872,7 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('kjq1'):
+        elif c in ('kjq1',):
             # compound tides calculated using recursion
             parents = ['k1','j1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From f79c57f4e8e47fb0e10ad67102a0c4515775d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 007/112] fix: phase correction of msk6 and snk6 adds that of
 k2

---
 pyTMD/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 213456b..32afd72 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1051,14 +1051,14 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]**3
             u[:,i] = utmp[:,0] + 3.0*utmp[:,1]
             continue
-        elif c in ('mk4','nk4','mks2'):
+        elif c in ('mk4','nk4','mks2','msk6','snk6'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('msk2','2smk4','msk6','snk6'):
+        elif c in ('msk2','2smk4'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 95a5325aa8cb8c0601ecb4d3fadaae95b7c1377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 008/112] fix: nodal names of 2(mn)8, 2(mn)k9 and m2(ks)2 as in
 the coefficient table

---
 pyTMD/arguments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 32afd72..8e9bb47 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -924,7 +924,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('m8','ma8','3mn8','3mnu8','3mmu8','2mn8','2(mn):8','3msn10',
+        elif c in ('m8','ma8','3mn8','3mnu8','3mmu8','2mn8','2(mn)8','3msn10',
                 '4ms10','2(mn)S10','4m2s12'):
             # compound tides calculated using recursion
             parents = ['m2']
@@ -1037,7 +1037,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3 * ftmp[:,1]
             u[:,i] = 3.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('4mk9','3mnk9','2m2nk9','2(mn):k9','3nmk9','4msk11'):
+        elif c in ('4mk9','3mnk9','2m2nk9','2(mn)k9','3nmk9','4msk11'):
             # compound tides calculated using recursion
             parents = ['m2','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -1100,7 +1100,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3 * ftmp[:,1]
             u[:,i] = 3.0*utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('m2(ks):2',):
+        elif c in ('m2(ks)2',):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 78b8b78a7f96f4f7f5dcc91b607e7ec0eb36bac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 009/112] fix: OTIS-type constituents without parameters were
 predicted as constants

---
 pyTMD/predict.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 9ee04ac..22d078c 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -146,10 +146,11 @@ def map(t: float | np.ndarray,
     ht.mask = np.zeros((npts), dtype=bool)
     # for each constituent
     for k,c in enumerate(constituents):
-        if corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf'):
-            # load parameters for each constituent
-            amp, ph, omega, alpha, species = \
-                pyTMD.arguments._constituent_parameters(c)
+        # load parameters for each constituent
+        amp, ph, omega, alpha, species = \
+            pyTMD.arguments._constituent_parameters(c)
+        # constituents without parameters use the equilibrium argument
+        if (corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf')) and (omega != 0.0):
             # add component for constituent to output tidal elevation
             th = omega*t*86400.0 + ph + pu[0,k]
         else:
@@ -206,10 +207,11 @@ def drift(t: float | np.ndarray,
     ht.mask = np.zeros((nt), dtype=bool)
     # for each constituent
     for k,c in enumerate(constituents):
-        if corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf'):
-            # load parameters for each constituent
-            amp, ph, omega, alpha, species = \
-                pyTMD.arguments._constituent_parameters(c)
+        # load parameters for each constituent
+        amp, ph, omega, alpha, species = \
+            pyTMD.arguments._constituent_parameters(c)
+        # constituents without parameters use the equilibrium argument
+        if (corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf')) and (omega != 0.0):
             # add component for constituent to output tidal elevation
             th = omega*t*86400.0 + ph + pu[:,k]
         else:
-- 
2.43.0


From eebfad8c868b93bfc354ab261a2f097001a82359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 010/112] fix: infer a minor constituent when it is the only
 one and first of its band

---
 pyTMD/predict.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 22d078c..04aabea 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -418,7 +418,7 @@ def _infer_short_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No short-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if len(minor_indices) == 0:
         logging.debug(msg)
         return 0.0
 
@@ -566,7 +566,7 @@ def _infer_semi_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No semi-diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if len(minor_indices) == 0:
         logging.debug(msg)
         return 0.0
 
@@ -727,7 +727,7 @@ def _infer_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if len(minor_indices) == 0:
         logging.debug(msg)
         return 0.0
 
@@ -880,7 +880,7 @@ def _infer_long_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No long-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if len(minor_indices) == 0:
         logging.debug(msg)
         return 0.0
 
-- 
2.43.0


From ed3812227c8a37024eae495874758e84b8545fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 011/112] fix: infer_minor returns zeros of the prediction's
 shape when there is nothing to infer

---
 pyTMD/predict.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 04aabea..865e8f3 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -405,7 +405,7 @@ def _infer_short_period(
         raise Exception(msg)
     elif (nz < 6):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['2q1', 'sigma1', 'rho1', 'm1b', 'm1',
@@ -420,7 +420,7 @@ def _infer_short_period(
     msg = 'No short-period tidal constituents to infer'
     if len(minor_indices) == 0:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # relationship between major and minor constituent amplitude and phase
     zmin = np.zeros((n, 20), dtype=np.complex64)
@@ -553,7 +553,7 @@ def _infer_semi_diurnal(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['eps2', '2n2', 'mu2', 'nu2', 'gamma2',
@@ -568,7 +568,7 @@ def _infer_semi_diurnal(
     msg = 'No semi-diurnal tidal constituents to infer'
     if len(minor_indices) == 0:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
@@ -714,7 +714,7 @@ def _infer_diurnal(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['2q1', 'sigma1', 'rho1', 'tau1', 'beta1',
@@ -729,7 +729,7 @@ def _infer_diurnal(
     msg = 'No diurnal tidal constituents to infer'
     if len(minor_indices) == 0:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
@@ -868,7 +868,7 @@ def _infer_long_period(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['sa', 'ssa', 'sta', 'msm', 'msf',
@@ -882,7 +882,7 @@ def _infer_long_period(
     msg = 'No long-period tidal constituents to infer'
     if len(minor_indices) == 0:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
-- 
2.43.0


From 13c924bb31326d9d6818d5907ed987620867fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 012/112] fix: OTIS-type constituents without parameters in
 time series and harmonic analysis

---
 pyTMD/predict.py         | 9 +++++----
 pyTMD/solve/constants.py | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 865e8f3..17dc763 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -268,10 +268,11 @@ def time_series(t: float | np.ndarray,
     ht.mask = np.zeros((nt), dtype=bool)
     # for each constituent
     for k,c in enumerate(constituents):
-        if corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf'):
-            # load parameters for each constituent
-            amp, ph, omega, alpha, species = \
-                pyTMD.arguments._constituent_parameters(c)
+        # load parameters for each constituent
+        amp, ph, omega, alpha, species = \
+            pyTMD.arguments._constituent_parameters(c)
+        # constituents without parameters use the equilibrium argument
+        if (corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf')) and (omega != 0.0):
             # add component for constituent to output tidal time series
             th = omega*t*86400.0 + ph + pu[:,k]
         else:
diff --git a/pyTMD/solve/constants.py b/pyTMD/solve/constants.py
index 06c314a..4e842bf 100644
--- a/pyTMD/solve/constants.py
+++ b/pyTMD/solve/constants.py
@@ -105,9 +105,10 @@ def constants(t: float | np.ndarray,
     M.append(np.ones_like(t))
     # add constituent terms
     for k,c in enumerate(constituents):
-        if corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf'):
-            amp, ph, omega, alpha, species = \
-                pyTMD.arguments._constituent_parameters(c)
+        amp, ph, omega, alpha, species = \
+            pyTMD.arguments._constituent_parameters(c)
+        # constituents without parameters use the equilibrium argument
+        if (corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf')) and (omega != 0.0):
             th = omega*t*86400.0 + ph + pu[:,k]
         else:
             th = G[:,k]*np.pi/180.0 + pu[:,k]
-- 
2.43.0


From 61ccefa8215d5a1449e05fef782cac4254a871e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 013/112] fix: iterative geodetic conversions at the exact
 poles

---
 pyTMD/spatial.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c39225b..35b12fd 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1830,7 +1830,7 @@ def _moritz_iterative(
     # calculate radius of parallel
     p = np.sqrt(x**2 + y**2)
     # initial estimated value for phi using h=0
-    phi = np.arctan(z/(p*(1.0 - ecc1**2)))
+    phi = np.arctan2(z, p*(1.0 - ecc1**2))
     # iterate to tolerance or to maximum number of iterations
     i = 0
     while np.any(np.abs(h - h0) > eps) and (i <= iterations):
@@ -1839,9 +1839,9 @@ def _moritz_iterative(
         # calculate radius of curvature
         N = a_axis/np.sqrt(1.0 - ecc1**2 * np.sin(phi)**2)
         # estimate new value of height
-        h = p/np.cos(phi) - N
+        h = p*np.cos(phi) + z*np.sin(phi) - a_axis**2/N
         # estimate new value for latitude using heights
-        phi = np.arctan(z/(p*(1.0 - ecc1**2*N/(N + h))))
+        phi = np.arctan2(z, p*(1.0 - ecc1**2*N/(N + h)))
         # add to iterator
         i += 1
     # return longitude, latitude and height
@@ -1891,10 +1891,10 @@ def _bowring_iterative(
     # calculate radius of parallel
     p = np.sqrt(x**2 + y**2)
     # initial estimated value for reduced parametric latitude
-    u = np.arctan(a_axis*z/(b_axis*p))
+    u = np.arctan2(a_axis*z, b_axis*p)
     # initial estimated value for latitude
-    phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-        (p - e12*a_axis*np.cos(u)**3))
+    phi = np.arctan2(z + e22*b_axis*np.sin(u)**3,
+        p - e12*a_axis*np.cos(u)**3)
     phi0 = np.inf*np.ones_like(lon)
     # iterate to tolerance or to maximum number of iterations
     i = 0
@@ -1902,10 +1902,10 @@ def _bowring_iterative(
         # copy previous iteration of phi
         phi0 = np.copy(phi)
         # calculate reduced parametric latitude
-        u = np.arctan(b_axis*np.tan(phi)/a_axis)
+        u = np.arctan2(b_axis*np.sin(phi), a_axis*np.cos(phi))
         # estimate new value of latitude
-        phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-            (p - e12*a_axis*np.cos(u)**3))
+        phi = np.arctan2(z + e22*b_axis*np.sin(u)**3,
+            p - e12*a_axis*np.cos(u)**3)
         # add to iterator
         i += 1
     # calculate final radius of curvature
-- 
2.43.0


From b576ac0c25b52552787e5095a68bacf25a6627c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 014/112] fix: closed-form geodetic conversion of arrays
 including a pole

---
 pyTMD/spatial.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 35b12fd..a0e20ef 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1956,12 +1956,12 @@ def _zhu_closed_form(
     h = np.zeros_like(lon)
     if np.any(w == 0):
         # special case where w == 0 (exact polar solution)
-        ind, = np.nonzero(w == 0)
+        ind = np.nonzero(w == 0)
         h[ind] = np.sign(z[ind])*z[ind] - b_axis
         lat[ind] = 90.0*np.sign(z[ind])
-    else:
+    if np.any(w != 0):
         # all other cases
-        ind, = np.nonzero(w != 0)
+        ind = np.nonzero(w != 0)
         l = e12/2.0
         m = (w[ind]/a_axis)**2.0
         n = ((1.0 - e12)*z[ind]/b_axis)**2.0
@@ -1972,11 +1972,11 @@ def _zhu_closed_form(
         B = i/3.0 - (q + D)**(1.0/3.0) - (q - D)**(1.0/3.0)
         t = np.sqrt(np.sqrt(B**2-k) - (B + i)/2.0) - \
             np.sign(m - n)*np.sqrt((B - i)/2.0)
-        wi = w/(t + l)
+        wi = w[ind]/(t + l)
         zi = (1.0 - e12)*z[ind]/(t - l)
         # calculate latitude and height
         lat[ind] = np.arctan2(zi, ((1.0 - e12)*wi))/dtr
-        h[ind] = np.sign(t-1.0+l)*np.sqrt((w-wi)**2.0 + (z[ind]-zi)**2.0)
+        h[ind] = np.sign(t-1.0+l)*np.sqrt((w[ind]-wi)**2.0 + (z[ind]-zi)**2.0)
     # return longitude, latitude and height
     return (lon, lat, h)
 
-- 
2.43.0


From b592f7dade5c053f6eef8ffd859b05b6f4d07d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 015/112] fix: from_dms for angles smaller than one degree

---
 pyTMD/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index a0e20ef..68ce1f2 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1619,7 +1619,8 @@ def from_dms(
     d: np.ndarray
         decimal degrees
     """
-    sign = np.sign(degree)
+    # (the sign of an angle within a degree of zero is that of the zero)
+    sign = np.where(np.signbit(degree), -1.0, 1.0)
     d = np.abs(degree) + minute/60.0 + second/3600.0
     return sign*d
 
-- 
2.43.0


From 71f5794e6b7db26b3f669e7522aceb0a1bbcac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 016/112] fix: convert_ellipsoid clipped the caller's latitudes
 in place

---
 pyTMD/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 68ce1f2..47e1c10 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1417,6 +1417,8 @@ def convert_ellipsoid(
     b1 = (1.0 - f1)*a1
     b2 = (1.0 - f2)*a2
     # initialize output arrays
+    # (copy so that the input latitudes are not modified)
+    phi1 = np.array(phi1, dtype=np.float64)
     npts = len(phi1)
     phi2 = np.zeros((npts))
     h2 = np.zeros((npts))
-- 
2.43.0


From ba80b4b69892170f77d9643d385f36e9872efc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 017/112] fix: closed-form geodetic conversion undefined near
 45.3 degrees

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 47e1c10..76a869a 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1974,7 +1974,7 @@ def _zhu_closed_form(
         D = np.sqrt((2.0*q - m*n*l**2)*m*n*l**2)
         B = i/3.0 - (q + D)**(1.0/3.0) - (q - D)**(1.0/3.0)
         t = np.sqrt(np.sqrt(B**2-k) - (B + i)/2.0) - \
-            np.sign(m - n)*np.sqrt((B - i)/2.0)
+            np.sign(m - n)*np.sqrt(np.maximum((B - i)/2.0, 0.0))
         wi = w[ind]/(t + l)
         zi = (1.0 - e12)*z[ind]/(t - l)
         # calculate latitude and height
-- 
2.43.0


From 16110b6f15cc4b58edb0729fe659bd540b163bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 018/112] fix: semi-major axis and flattening of GRS80 and
 NAD83

---
 pyTMD/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index 3e3ba55..ea1c565 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -321,8 +321,8 @@ class datum:
         elif self.name in ('GRS80', 'NAD83'):
             # Geodetic Reference System 1980
             # North American Datum 1983
-            self.a_axis = 6378135.0# [m] semimajor axis of the ellipsoid
-            self.flat = 1.0/298.26# flattening of the ellipsoid
+            self.a_axis = 6378137.0# [m] semimajor axis of the ellipsoid
+            self.flat = 1.0/298.257222101# flattening of the ellipsoid
             self.GM = 3.986005e14# [m^3/s^2] Geocentric Gravitational Constant
 
         elif (self.name == 'GRS67'):
-- 
2.43.0


From 2658618974b3c09dfc97dbd67829191be4a1c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 019/112] fix: ratio between polar and equatorial gravity

---
 pyTMD/crs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index ea1c565..aba0ce1 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -580,7 +580,7 @@ class datum:
     def dk(self) -> float:
         """Ratio between gravity at pole versus gravity at equator
         """
-        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_b) - 1.0
+        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_a) - 1.0
 
     # Normal potential at the ellipsoid
     # p. 68, Eqn.(2-123)
-- 
2.43.0


From 218adaf1f4369e202f65f0feee265c2c372a5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 020/112] fix: missing observations in the harmonic analysis
 were used as data

---
 pyTMD/solve/constants.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyTMD/solve/constants.py b/pyTMD/solve/constants.py
index 4e842bf..ef1add6 100644
--- a/pyTMD/solve/constants.py
+++ b/pyTMD/solve/constants.py
@@ -93,6 +93,16 @@ def constants(t: float | np.ndarray,
     # check that the number of time values matches the number of height values
     if (nt != len(np.atleast_1d(ht))):
         raise ValueError('Dimension mismatch between input variables')
+    # remove missing (masked or non-finite) observations
+    ht = np.ma.masked_invalid(np.atleast_1d(ht))
+    if np.ma.getmaskarray(ht).any():
+        valid = np.logical_not(np.ma.getmaskarray(ht))
+        t = np.atleast_1d(t)[valid]
+        if (np.size(deltat) == nt):
+            deltat = np.atleast_1d(deltat)[valid]
+        if (np.count_nonzero(valid) <= 2*nc):
+            raise ValueError('Not enough values for fit')
+    ht = ht.compressed()
 
     # load the nodal corrections
     # convert time to Modified Julian Days (MJD)
-- 
2.43.0


From 8d03ade464d4f1219bdfcbd8061e7aa6e9ad7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 021/112] fix: inclination and phase of ellipses at the end of
 their range

---
 pyTMD/ellipse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/ellipse.py b/pyTMD/ellipse.py
index c2d21c7..5de8949 100644
--- a/pyTMD/ellipse.py
+++ b/pyTMD/ellipse.py
@@ -88,7 +88,11 @@ def ellipse(u: np.ndarray, v: np.ndarray):
     k = (uincl//180.0)
     uincl -= 180.0*k
     uphase += 180.0*k
-    uphase = np.mod(uphase, 360.0)
+    # angles rounded up to the end of their range belong to its start
+    k = (uincl >= 180.0)
+    uincl -= 180.0*k
+    uphase = np.mod(uphase + 180.0*k, 360.0)
+    uphase -= 360.0*(uphase >= 360.0)
     # return values
     return (umajor, uminor, uincl, uphase)
 
-- 
2.43.0


From ccf2e295fc35b6d25d901942a909362a0b4b7082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 022/112] fix: longitude conventions of points and model grids
 in the readers

---
 pyTMD/io/ATLAS.py | 21 +++++----------------
 pyTMD/io/FES.py   | 22 +++++-----------------
 pyTMD/io/GOT.py   | 22 +++++-----------------
 pyTMD/io/OTIS.py  | 25 ++++++++++---------------
 4 files changed, 25 insertions(+), 65 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ab6aba7..3676eec 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -252,14 +252,6 @@ def extract_constants(
             bounds=bounds,
             buffer=buffer
         )
-    elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
 
     # replace original values with extend arrays/matrices
     if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
@@ -267,6 +259,9 @@ def extract_constants(
         bathymetry = _extend_matrix(bathymetry)
         # set global grid flag
         is_global = True
+    # adjust longitudinal convention of input points to fit tide model
+    ilon[ilon < np.min(lon)] += 360.0
+    ilon[ilon > np.max(lon)] -= 360.0
     # create masks
     bathymetry.mask = (bathymetry.data == 0)
     # determine if any input points are outside of the model bounds
@@ -565,14 +560,8 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
+    ilon[ilon < np.min(lon)] += 360.0
+    ilon[ilon > np.max(lon)] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 8a5b66c..4613cec 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -262,25 +262,19 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
 
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # adjust longitudinal convention of input points to fit tide model
+        ilon[ilon < np.min(lon)] += 360.0
+        ilon[ilon > np.max(lon)] -= 360.0
         # determine if any input points are outside of the model bounds
         invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
                   (ilat < lat.min()) | (ilat > lat.max())
@@ -498,14 +492,8 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    ilon[ilon < np.min(lon)] += 360.0
+    ilon[ilon > np.max(lon)] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 7ce8eab..6c05ac3 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -239,24 +239,18 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # adjust longitudinal convention of input points to fit tide model
+        ilon[ilon < np.min(lon)] += 360.0
+        ilon[ilon > np.max(lon)] -= 360.0
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace invalid values with nan
@@ -447,14 +441,8 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    ilon[ilon < np.min(lon)] += 360.0
+    ilon[ilon > np.max(lon)] -= 360.0
     # number of points
     npts = len(ilon)
     # number of constituents
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index b3717cd..880e89d 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -307,14 +307,6 @@ def extract_constants(
             buffer=buffer, is_geographic=is_geographic)
         hz, xi, yi = _crop(hz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
-    elif (np.min(x) < np.min(xi)) & is_geographic:
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        x[x > 180] -= 360.0
 
     # if global: extend limits
     is_global = False
@@ -324,9 +316,6 @@ def extract_constants(
         # set global grid flag
         is_global = True
 
-    # determine if any input points are outside of the model bounds
-    invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
-
     # update masks for each type
     if (kwargs['type'] == 'z'):
         # replace original values with extend matrices
@@ -367,6 +356,13 @@ def extract_constants(
         # y-coordinates for v transports
         yi -= dy/2.0
 
+    # adjust longitudinal convention of input points to fit tide model
+    if is_geographic:
+        x[x < xi.min()] += 360.0
+        x[x > xi.max()] -= 360.0
+    # determine if any input points are outside of the model bounds
+    invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
+
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
         # replace invalid values with nan
@@ -802,10 +798,9 @@ def interpolate_constants(
     is_geographic = constituents.crs.is_geographic
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(x) < np.min(xi)) & is_geographic:
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        x[x > 180] -= 360.0
+    if is_geographic:
+        x[x < xi.min()] += 360.0
+        x[x > xi.max()] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
-- 
2.43.0


From 4e150ca084e6f6f6cb3cc45de7be6820a9a46a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 023/112] fix: points outside of the domain of GOT models were
 answered

---
 pyTMD/io/GOT.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 6c05ac3..597eda1 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -251,6 +251,9 @@ def extract_constants(
         # adjust longitudinal convention of input points to fit tide model
         ilon[ilon < np.min(lon)] += 360.0
         ilon[ilon > np.max(lon)] -= 360.0
+        # determine if any input points are outside of the model bounds
+        invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+                  (ilat < lat.min()) | (ilat > lat.max())
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace invalid values with nan
@@ -293,6 +296,9 @@ def extract_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
@@ -443,6 +449,9 @@ def interpolate_constants(
     # to fit tide model convention
     ilon[ilon < np.min(lon)] += 360.0
     ilon[ilon > np.max(lon)] -= 360.0
+    # determine if any input points are outside of the model bounds
+    invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+              (ilat < lat.min()) | (ilat > lat.max())
     # number of points
     npts = len(ilon)
     # number of constituents
@@ -512,6 +521,9 @@ def interpolate_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
-- 
2.43.0


From 8bd42b4346d283d6e9f7495ce78b9e7f65eaf5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 024/112] fix: cropping of model grids to bounds in any
 longitudinal convention

---
 pyTMD/io/ATLAS.py | 48 ++++++++++++++++++++++++++-----------------
 pyTMD/io/FES.py   | 48 ++++++++++++++++++++++++++-----------------
 pyTMD/io/GOT.py   | 48 ++++++++++++++++++++++++++-----------------
 pyTMD/io/OTIS.py  | 52 ++++++++++++++++++++++++++++++-----------------
 4 files changed, 120 insertions(+), 76 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 3676eec..b47cfd5 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1279,28 +1279,38 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
+    # grid step sizes of tide model
+    dx = np.abs(ilon[1] - ilon[0])
+    dy = np.abs(ilat[1] - ilat[0])
     # unpack bounds and buffer
-    xmin = bounds[0] - buffer
-    xmax = bounds[1] + buffer
-    ymin = bounds[2] - buffer
-    ymax = bounds[3] + buffer
-    # find indices for cropping
+    # (always include the model nodes surrounding the bounds)
+    xmin = np.min(bounds[:2]) - np.maximum(buffer, 2.0*dx)
+    xmax = np.max(bounds[:2]) + np.maximum(buffer, 2.0*dx)
+    ymin = np.min(bounds[2:]) - np.maximum(buffer, 2.0*dy)
+    ymax = np.max(bounds[2:]) + np.maximum(buffer, 2.0*dy)
+    # find indices for cropping the rows
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
-    # slices for cropping axes
-    rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    # number of columns (without any repeated meridian)
+    nx = len(ilon)
+    nx -= int(np.isclose(ilon[-1] - ilon[0], 360.0))
+    is_global = np.isclose(nx*(ilon[nx-1] - ilon[0])/(nx - 1), 360.0)
+    # model longitudes in each of the longitudinal conventions
+    tx = np.concatenate([ilon[:nx] + c for c in (-360.0, 0.0, 360.0)])
+    # find indices for cropping the columns
+    xind = np.flatnonzero((tx >= xmin) & (tx <= xmax))
+    # keep all columns if they are not in a single contiguous section
+    if (xmax - xmin >= 360.0) | ((not is_global) &
+        (len(np.unique(xind//nx)) > 1)):
+        tx, xind = np.copy(ilon), np.arange(len(ilon))
+    # keep all rows or columns if the bounds are outside of the model
+    if (len(yind) < 2):
+        yind = np.arange(len(ilat))
+    if (len(xind) < 2):
+        tx, xind = np.copy(ilon), np.arange(len(ilon))
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
-    lat = ilat[rows]
+    temp = input_matrix[yind, :][:, xind % nx]
+    lon = tx[xind]
+    lat = ilat[yind]
     # return cropped data
     return (temp, lon, lat)
 
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 4613cec..03cf03e 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -947,28 +947,38 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
+    # grid step sizes of tide model
+    dx = np.abs(ilon[1] - ilon[0])
+    dy = np.abs(ilat[1] - ilat[0])
     # unpack bounds and buffer
-    xmin = bounds[0] - buffer
-    xmax = bounds[1] + buffer
-    ymin = bounds[2] - buffer
-    ymax = bounds[3] + buffer
-    # find indices for cropping
+    # (always include the model nodes surrounding the bounds)
+    xmin = np.min(bounds[:2]) - np.maximum(buffer, 2.0*dx)
+    xmax = np.max(bounds[:2]) + np.maximum(buffer, 2.0*dx)
+    ymin = np.min(bounds[2:]) - np.maximum(buffer, 2.0*dy)
+    ymax = np.max(bounds[2:]) + np.maximum(buffer, 2.0*dy)
+    # find indices for cropping the rows
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
-    # slices for cropping axes
-    rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    # number of columns (without any repeated meridian)
+    nx = len(ilon)
+    nx -= int(np.isclose(ilon[-1] - ilon[0], 360.0))
+    is_global = np.isclose(nx*(ilon[nx-1] - ilon[0])/(nx - 1), 360.0)
+    # model longitudes in each of the longitudinal conventions
+    tx = np.concatenate([ilon[:nx] + c for c in (-360.0, 0.0, 360.0)])
+    # find indices for cropping the columns
+    xind = np.flatnonzero((tx >= xmin) & (tx <= xmax))
+    # keep all columns if they are not in a single contiguous section
+    if (xmax - xmin >= 360.0) | ((not is_global) &
+        (len(np.unique(xind//nx)) > 1)):
+        tx, xind = np.copy(ilon), np.arange(len(ilon))
+    # keep all rows or columns if the bounds are outside of the model
+    if (len(yind) < 2):
+        yind = np.arange(len(ilat))
+    if (len(xind) < 2):
+        tx, xind = np.copy(ilon), np.arange(len(ilon))
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
-    lat = ilat[rows]
+    temp = input_matrix[yind, :][:, xind % nx]
+    lon = tx[xind]
+    lat = ilat[yind]
     # return cropped data
     return (temp, lon, lat)
 
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 597eda1..118e038 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -845,28 +845,38 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
+    # grid step sizes of tide model
+    dx = np.abs(ilon[1] - ilon[0])
+    dy = np.abs(ilat[1] - ilat[0])
     # unpack bounds and buffer
-    xmin = bounds[0] - buffer
-    xmax = bounds[1] + buffer
-    ymin = bounds[2] - buffer
-    ymax = bounds[3] + buffer
-    # find indices for cropping
+    # (always include the model nodes surrounding the bounds)
+    xmin = np.min(bounds[:2]) - np.maximum(buffer, 2.0*dx)
+    xmax = np.max(bounds[:2]) + np.maximum(buffer, 2.0*dx)
+    ymin = np.min(bounds[2:]) - np.maximum(buffer, 2.0*dy)
+    ymax = np.max(bounds[2:]) + np.maximum(buffer, 2.0*dy)
+    # find indices for cropping the rows
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
-    # slices for cropping axes
-    rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    # number of columns (without any repeated meridian)
+    nx = len(ilon)
+    nx -= int(np.isclose(ilon[-1] - ilon[0], 360.0))
+    is_global = np.isclose(nx*(ilon[nx-1] - ilon[0])/(nx - 1), 360.0)
+    # model longitudes in each of the longitudinal conventions
+    tx = np.concatenate([ilon[:nx] + c for c in (-360.0, 0.0, 360.0)])
+    # find indices for cropping the columns
+    xind = np.flatnonzero((tx >= xmin) & (tx <= xmax))
+    # keep all columns if they are not in a single contiguous section
+    if (xmax - xmin >= 360.0) | ((not is_global) &
+        (len(np.unique(xind//nx)) > 1)):
+        tx, xind = np.copy(ilon), np.arange(len(ilon))
+    # keep all rows or columns if the bounds are outside of the model
+    if (len(yind) < 2):
+        yind = np.arange(len(ilat))
+    if (len(xind) < 2):
+        tx, xind = np.copy(ilon), np.arange(len(ilon))
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
-    lat = ilat[rows]
+    temp = input_matrix[yind, :][:, xind % nx]
+    lon = tx[xind]
+    lat = ilat[yind]
     # return cropped data
     return (temp, lon, lat)
 
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 880e89d..f123114 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2004,28 +2004,42 @@ def _crop(
     y: np.ndarray
         cropped y-coordinates
     """
-    # adjust longitudinal convention of tide model
-    if is_geographic & (np.min(bounds[:2]) < 0.0) & (np.max(ix) > 180.0):
-        input_matrix, ix, = _shift(input_matrix, ix,
-            x0=180.0, cyclic=360.0, direction='west')
-    elif is_geographic & (np.max(bounds[:2]) > 180.0) & (np.min(ix) < 0.0):
-        input_matrix, ix, = _shift(input_matrix, ix,
-            x0=0.0, cyclic=360.0, direction='east')
+    # grid step sizes of tide model
+    dx = np.abs(ix[1] - ix[0])
+    dy = np.abs(iy[1] - iy[0])
     # unpack bounds and buffer
-    xmin = bounds[0] - buffer
-    xmax = bounds[1] + buffer
-    ymin = bounds[2] - buffer
-    ymax = bounds[3] + buffer
-    # find indices for cropping
+    # (always include the model nodes surrounding the bounds)
+    xmin = np.min(bounds[:2]) - np.maximum(buffer, 2.0*dx)
+    xmax = np.max(bounds[:2]) + np.maximum(buffer, 2.0*dx)
+    ymin = np.min(bounds[2:]) - np.maximum(buffer, 2.0*dy)
+    ymax = np.max(bounds[2:]) + np.maximum(buffer, 2.0*dy)
+    # find indices for cropping the rows
     yind = np.flatnonzero((iy >= ymin) & (iy <= ymax))
-    xind = np.flatnonzero((ix >= xmin) & (ix <= xmax))
-    # slices for cropping axes
-    rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    # number of columns (without any repeated meridian)
+    nx = len(ix)
+    if is_geographic:
+        nx -= int(np.isclose(ix[-1] - ix[0], 360.0))
+        is_global = np.isclose(nx*(ix[nx-1] - ix[0])/(nx - 1), 360.0)
+        # model longitudes in each of the longitudinal conventions
+        tx = np.concatenate([ix[:nx] + c for c in (-360.0, 0.0, 360.0)])
+        # find indices for cropping the columns
+        xind = np.flatnonzero((tx >= xmin) & (tx <= xmax))
+        # keep all columns if they are not in a single contiguous section
+        if (xmax - xmin >= 360.0) | ((not is_global) &
+            (len(np.unique(xind//nx)) > 1)):
+            tx, xind = np.copy(ix), np.arange(len(ix))
+    else:
+        tx = np.copy(ix)
+        xind = np.flatnonzero((tx >= xmin) & (tx <= xmax))
+    # keep all rows or columns if the bounds are outside of the model
+    if (len(yind) < 2):
+        yind = np.arange(len(iy))
+    if (len(xind) < 2):
+        tx, xind = np.copy(ix), np.arange(len(ix))
     # crop matrix
-    temp = input_matrix[rows, cols]
-    x = ix[cols]
-    y = iy[rows]
+    temp = input_matrix[yind, :][:, xind % nx]
+    x = tx[xind]
+    y = iy[yind]
     # return cropped data
     return (temp, x, y)
 
-- 
2.43.0


From e217769288b6e41e28a56887b18b043afb30dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 025/112] fix: paths given as strings in model definition files

---
 pyTMD/io/model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index ce00fd7..c52f6f6 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -733,6 +733,9 @@ class model:
             elif (temp.type == ['u','v']) and isinstance(temp.model_file, dict):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
+                    if isinstance(model_file, str):
+                        temp.model_file[key] = pathlib.Path(model_file).expanduser()
+                        continue
                     temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
                         model_file]
             elif (temp.type == 'z') and isinstance(temp.model_file, list):
@@ -778,10 +781,14 @@ class model:
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
+                    if isinstance(model_file, str):
+                        model_file = [model_file]
                     temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
                         model_file]
             elif (temp.type == 'z'):
                 # resolve paths to model files
+                if isinstance(temp.model_file, str):
+                    temp.model_file = [temp.model_file]
                 temp.model_file = [pathlib.Path(f).expanduser() for f in
                     temp.model_file]
         elif temp.format in ('FES-ascii','FES-netcdf','GOT-ascii','GOT-netcdf'):
@@ -813,10 +820,14 @@ class model:
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
+                    if isinstance(model_file, str):
+                        model_file = [model_file]
                     temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
                         model_file]
             elif (temp.type == 'z'):
                 # resolve paths to model files
+                if isinstance(temp.model_file, str):
+                    temp.model_file = [temp.model_file]
                 temp.model_file = [pathlib.Path(f).expanduser() for f in
                     temp.model_file]
         # verify that projection attribute exists for projected models
-- 
2.43.0


From cf407cf6ff0fc4da84f5e58fce220cabd755b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 026/112] fix: model files of FES tidal currents for each
 direction

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index c52f6f6..f031684 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1048,7 +1048,7 @@ class model:
                 model_file = self.model_file
             # extract tidal constants for model type
             amp,ph = FES.extract_constants(lon, lat,
-                self.model_file, version=self.version,
+                model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
             c = self.constituents
-- 
2.43.0


From cabe6183c3610e3c19b637f2c03b18cba36ddcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 027/112] fix: appending the node tide altered the constituents
 of the model

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index f031684..212d6ff 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1051,7 +1051,7 @@ class model:
                 model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
-            c = self.constituents
+            c = copy.copy(self.constituents)
         # append node equilibrium tide if not in constituents list
         if kwargs['append_node'] and ('node' not in c):
             # calculate node equilibrium tide
-- 
2.43.0


From 3f969a02bb6f05f066808287fa0fa5d527058a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 028/112] fix: definition files of FES-ascii models were
 rejected

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 212d6ff..92b21e0 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -458,7 +458,8 @@ class model:
         # load the database of model parameters
         parameters = load_database()
         # extract all known formats
-        format_list = []
+        # (including formats without an entry in the database)
+        format_list = ['FES-ascii']
         for variable, models in parameters.items():
             for model, val in models.items():
                 format_list.append(val['format'])
-- 
2.43.0


From 804fcc23a608cff7a88b16b8626b6530323f469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 029/112] fix: interpolating another type of currents used
 constituents already read

---
 pyTMD/io/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 92b21e0..34ebe67 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1135,6 +1135,7 @@ class model:
             c.append('node', hc)
         # return the tidal constituents
         self._constituents = c
+        self._constituents_type = kwargs['type']
         return c
 
     def interpolate_constants(self,
@@ -1164,10 +1165,12 @@ class model:
         # import tide model functions
         from pyTMD.io import OTIS, ATLAS, GOT, FES
         # set default keyword arguments
-        kwargs.setdefault('type', self.type)
+        # (default type is that of the constituents if already read)
+        kwargs.setdefault('type', getattr(self, '_constituents_type', self.type))
         kwargs.setdefault('scale', self.scale)
-        # verify constituents have been read
-        if not hasattr(self, '_constituents'):
+        # verify constituents have been read (for the model type)
+        if not hasattr(self, '_constituents') or \
+            (kwargs['type'] != getattr(self, '_constituents_type', kwargs['type'])):
             self.read_constants(**kwargs)
         # interpolate tidal constants to grid points
         if self.format in ('OTIS','ATLAS-compact','TMD3'):
-- 
2.43.0


From 16495a824f3243c4d8f4df15b32ca4cc6e3dd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 030/112] fix: rows of GOT ascii files with any number of
 longitudes

---
 pyTMD/io/GOT.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 118e038..0d17c1c 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -591,10 +591,12 @@ def read_ascii_file(
     ph.mask = np.zeros((nlat,nlon),dtype=bool)
     # starting lines to fill amplitude and phase variables
     l1 = 7
-    l2 = 14 + int(nlon//11)*nlat + nlat
+    # number of lines for each latitude
+    nlines = int(np.ceil(nlon/11))
+    l2 = 14 + nlines*nlat
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//11):
+        for j in range(nlines):
             j1 = j*11
             amplitude_data = file_contents[l1].split()
             amp.data[i,j1:j1+11] = np.array(amplitude_data, dtype=np.float32)
@@ -602,14 +604,6 @@ def read_ascii_file(
             ph.data[i,j1:j1+11] = np.array(phase_data, dtype=np.float32)
             l1 += 1
             l2 += 1
-        # add last tidal variables
-        j1 = (j+1)*11; j2 = nlon % 11
-        amplitude_data = file_contents[l1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[l2].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        l1 += 1
-        l2 += 1
     # set masks
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     # calculate complex form of constituent oscillation
-- 
2.43.0


From ab1504d8fb14070864a5473ef38a78fcc61713bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 031/112] fix: rows of FES ascii files with any number of
 longitudes

---
 pyTMD/io/FES.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 03cf03e..9337313 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -639,21 +639,13 @@ def read_ascii_file(
     i1 = 5
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//30):
+        for j in range(int(np.ceil(nlon/30))):
             j1 = j*30
             amplitude_data = file_contents[i1].split()
             amp.data[i,j1:j1+30] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[i1+1].split()
             ph.data[i,j1:j1+30] = np.array(phase_data, dtype=np.float32)
             i1 += 2
-        # add last tidal variables
-        j1 = (j+1)*30
-        j2 = nlon % 30
-        amplitude_data = file_contents[i1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[i1+1].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        i1 += 2
     # calculate complex form of constituent oscillation
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     hc = np.ma.array(amp*np.exp(-1j*ph*np.pi/180.0), mask=mask,
-- 
2.43.0


From 9d3c036227f5a00dfbef4f1825d3d2866b38806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 032/112] fix: reading compressed FES ascii files

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 9337313..d8acfcf 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -611,7 +611,7 @@ def read_ascii_file(
     if kwargs['compressed']:
         # read gzipped ascii file
         with gzip.open(input_file, 'rb') as f:
-            file_contents = f.read(input_file).splitlines()
+            file_contents = f.read().decode('utf8').splitlines()
     else:
         with open(input_file, mode="r", encoding='utf8') as f:
             file_contents = f.read().splitlines()
-- 
2.43.0


From a016abfd9d85d278af980a5d1ca9e97d49758827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 033/112] fix: detection of global grids when reading OTIS
 constants

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index f123114..006eefa 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -610,7 +610,7 @@ def read_constants(
             buffer=kwargs['buffer'], is_geographic=is_geographic)
 
     # replace original values with extend arrays/matrices
-    if ((xi[-1] - xi[0]) == (360.0 - dx)) & is_geographic:
+    if np.isclose(xi[-1] - xi[0], 360.0 - dx) & is_geographic:
         xi = _extend_array(xi, dx)
         # set global grid flag
         is_global = True
-- 
2.43.0


From 1581f4b6223ed1ec288c2fa03f7d949b2880d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 034/112] fix: depths at the edges of regional OTIS grids

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 006eefa..87f198e 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2160,7 +2160,7 @@ def _interpolate_zeta(hz: np.ndarray, is_global: bool = True):
     # shape of input data
     ny, nx = np.shape(hz)
     # get masks for u and v nodes
-    mu, mv = _mask_nodes(hz)
+    mu, mv = _mask_nodes(hz, is_global=is_global)
     # initialize data for u and v grids
     hu = np.zeros((ny, nx), dtype=hz.dtype)
     hv = np.zeros((ny, nx), dtype=hz.dtype)
-- 
2.43.0


From 57dfb00a38e8c4e385824ae7e4389b179f4a8405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 035/112] fix: interpolating ATLAS constants altered the
 bathymetry of the model

---
 pyTMD/io/ATLAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index b47cfd5..ec6b352 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -569,7 +569,7 @@ def interpolate_constants(
     # number of points
     npts = len(ilon)
     # create masked array of model bathymetry
-    bathymetry = np.ma.array(constituents.bathymetry,
+    bathymetry = np.ma.array(np.copy(constituents.bathymetry),
         mask=constituents.mask, fill_value=0.0)
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
-- 
2.43.0


From 7022fd61859e757e14c81b8867df6f8dafab5e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 036/112] fix: default type when interpolating OTIS constants

---
 pyTMD/io/OTIS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 87f198e..eeffddc 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -781,6 +781,7 @@ def interpolate_constants(
         bathymetry of tide model
     """
     # set default keyword arguments
+    kwargs.setdefault('type', 'z')
     kwargs.setdefault('method', 'spline')
     kwargs.setdefault('extrapolate', False)
     kwargs.setdefault('cutoff', 10.0)
-- 
2.43.0


From 3b492667aa2f51a5e75ae90467890d68502c2bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 037/112] fix: velocities at extrapolated points used missing
 depths

---
 pyTMD/io/ATLAS.py | 22 ++++++++++++++++++++--
 pyTMD/io/OTIS.py  | 24 ++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ec6b352..09e04fe 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -289,9 +289,18 @@ def extract_constants(
         D = pyTMD.interpolate.regulargrid(lon, lat, bathymetry, ilon, ilat,
             method=kwargs['method'], reducer=np.ceil, bounds_error=False)
 
+    # depths for converting transports to velocities
+    depth = np.ma.copy(D)
+    # use depths of the nearest-neighbors for extrapolated points
+    if (kwargs['type'] in ('v','u')) and kwargs['extrapolate'] and \
+        np.any(depth.mask):
+        inv, = np.nonzero(depth.mask)
+        depth[inv] = pyTMD.interpolate.extrapolate(lon, lat, bathymetry,
+            ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -590,9 +599,18 @@ def interpolate_constants(
         D = pyTMD.interpolate.regulargrid(lon, lat, bathymetry, ilon, ilat,
             method=kwargs['method'], reducer=np.ceil, bounds_error=False)
 
+    # depths for converting transports to velocities
+    depth = np.ma.copy(D)
+    # use depths of the nearest-neighbors for extrapolated points
+    if (kwargs['type'] in ('v','u')) and kwargs['extrapolate'] and \
+        np.any(depth.mask):
+        inv, = np.nonzero(depth.mask)
+        depth[inv] = pyTMD.interpolate.extrapolate(lon, lat, bathymetry,
+            ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index eeffddc..836fdd2 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -382,9 +382,19 @@ def extract_constants(
         D = pyTMD.interpolate.regulargrid(xi, yi, bathymetry, x, y,
             method=kwargs['method'], reducer=np.ceil, bounds_error=False)
 
+    # depths for converting transports to velocities
+    depth = np.ma.copy(D)
+    # use depths of the nearest-neighbors for extrapolated points
+    if (kwargs['type'] in ('v','u')) and kwargs['extrapolate'] and \
+        np.any(depth.mask):
+        inv, = np.nonzero(depth.mask)
+        depth[inv] = pyTMD.interpolate.extrapolate(xi, yi, bathymetry,
+            x[inv], y[inv], cutoff=kwargs['cutoff'],
+            is_geographic=is_geographic)
+
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        unit_conv = (depth/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -821,9 +831,19 @@ def interpolate_constants(
         D = pyTMD.interpolate.regulargrid(xi, yi, bathymetry, x, y,
             method=kwargs['method'], reducer=np.ceil, bounds_error=False)
 
+    # depths for converting transports to velocities
+    depth = np.ma.copy(D)
+    # use depths of the nearest-neighbors for extrapolated points
+    if (kwargs['type'] in ('v','u')) and kwargs['extrapolate'] and \
+        np.any(depth.mask):
+        inv, = np.nonzero(depth.mask)
+        depth[inv] = pyTMD.interpolate.extrapolate(xi, yi, bathymetry,
+            x[inv], y[inv], cutoff=kwargs['cutoff'],
+            is_geographic=is_geographic)
+
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        unit_conv = (depth/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
-- 
2.43.0


From 9378178d06dc1491894a9d9567192f9bf60dfd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 038/112] fix: constituents with names of four characters in
 OTIS files

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 836fdd2..19743b1 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1180,7 +1180,7 @@ def read_constituents(
         ll, = np.fromfile(fid, dtype=np.dtype('>i4'), count=1)
         nx,ny,nc = np.fromfile(fid, dtype=np.dtype('>i4'), count=3)
         fid.seek(16,1)
-        constituents = [c.decode("utf8").rstrip() for c in fid.read(nc*4).split()]
+        constituents = [fid.read(4).decode("utf8").strip() for _ in range(nc)]
         fid.close()
     return (constituents, nc)
 
-- 
2.43.0


From d8e88befd39ee4b650e56ff81935702f9ea69c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 039/112] fix: units of the node tide appended to the
 constituents of a model

---
 pyTMD/io/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 34ebe67..72f3603 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1131,6 +1131,9 @@ class model:
             # calculate complex phase in radians for Euler's
             cph = -1j*ph*np.pi/180.0
             hc = amp*np.exp(cph)
+            # convert from meters to the units of the model constituents
+            if self.format not in ('OTIS','ATLAS-compact','TMD3') and self.scale:
+                hc /= self.scale
             # append constituent
             c.append('node', hc)
         # return the tidal constituents
-- 
2.43.0


From 6af7704fc93de69d898024974bf0b8143ea36b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 040/112] fix: constituents with names of four characters in
 ATLAS-compact files

---
 pyTMD/io/OTIS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 19743b1..eed81b2 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1300,7 +1300,7 @@ def read_atlas_elevation(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        cons = [fid.read(4).decode("utf8").strip() for _ in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
@@ -1465,7 +1465,7 @@ def read_atlas_transport(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        cons = [fid.read(4).decode("utf8").strip() for _ in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
-- 
2.43.0


From 62a8c051ecb2fd7cf534355d963b6d1f60a046f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 041/112] fix: OTIS and TMD3 model files found with a directory
 and a glob string

---
 pyTMD/io/OTIS.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index eed81b2..b2d9f7c 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -400,6 +400,9 @@ def extract_constants(
     elif kwargs['type'] in ('z','V','U'):
         unit_conv = 1.0
 
+    # model with all of its constituents in a single file
+    if isinstance(model_file, list) and (len(model_file) == 1):
+        model_file, = model_file
     # read and interpolate each constituent
     if isinstance(model_file,list):
         constituents = [read_constituents(m)[0].pop() for m in model_file]
@@ -670,6 +673,9 @@ def read_constants(
     gridx, gridy = np.meshgrid(xi, yi)
     lon, lat = crs.transform(gridx, gridy, direction='INVERSE')
 
+    # model with all of its constituents in a single file
+    if isinstance(model_file, list) and (len(model_file) == 1):
+        model_file, = model_file
     # read each constituent
     if isinstance(model_file, list):
         cons = [read_constituents(m)[0].pop() for m in model_file]
-- 
2.43.0


From e7fa1648a1c6446fbc8da6a903c9a9dd6efb71c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 042/112] fix: domain checks agree with the validity of the
 model constituents

---
 pyTMD/compute.py | 73 ++++++------------------------------------------
 1 file changed, 8 insertions(+), 65 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index bf54ce0..1e71e30 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -137,7 +137,6 @@ import logging
 import pathlib
 import numpy as np
 from io import IOBase
-import scipy.interpolate
 import pyTMD.crs
 import pyTMD.io
 import pyTMD.io.model
@@ -724,71 +723,15 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         np.atleast_1d(x).flatten(), np.atleast_1d(y).flatten()
     )
 
-    # read tidal constants and interpolate to grid points
-    if model.format in ('OTIS','ATLAS-compact','TMD3'):
-        # if reading a single OTIS solution
-        xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(
-            pathlib.Path(model.grid_file).expanduser())
-        # invert model mask
-        mz = np.logical_not(mz)
-        # adjust dimensions of input coordinates to be iterable
-        # run wrapper function to convert coordinate systems of input lat/lon
-        X, Y = pyTMD.crs().convert(lon, lat, model.projection, 'F')
-    elif (model.format == 'ATLAS-netcdf'):
-        # if reading a netCDF OTIS atlas solution
-        xi, yi, hz = pyTMD.io.ATLAS.read_netcdf_grid(
-            pathlib.Path(model.grid_file).expanduser(),
-            compressed=model.compressed, type=model.type)
-        # copy bathymetry mask
-        mz = np.copy(hz.mask)
-        # copy latitude and longitude and adjust longitudes
-        X,Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
-    elif model.format in ('GOT-ascii', 'GOT-netcdf'):
-        # if reading a NASA GOT solution
-        hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(
-            pathlib.Path(model.model_file[0]).expanduser(),
-            compressed=model.compressed)
-        # copy tidal constituent mask
-        mz = np.copy(hc.mask)
-        # copy latitude and longitude and adjust longitudes
-        X, Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
-    elif (model.format == 'FES-netcdf'):
-        # if reading a FES netCDF solution
-        hc, xi, yi = pyTMD.io.FES.read_netcdf_file(
-            pathlib.Path(model.model_file[0]).expanduser(),
-            compressed=model.compressed, type=model.type,
-            version=model.version)
-        # copy tidal constituent mask
-        mz = np.copy(hc.mask)
-        # copy latitude and longitude and adjust longitudes
-        X, Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
-
-    # interpolate masks
-    if (METHOD == 'bilinear'):
-        # replace invalid values with nan
-        mz1 = pyTMD.interpolate.bilinear(xi, yi, mz, X, Y)
-        mask = np.floor(mz1).astype(mz.dtype)
-    elif (METHOD == 'spline'):
-        f1 = scipy.interpolate.RectBivariateSpline(xi, yi, mz.T,
-            kx=1, ky=1)
-        mask = np.floor(f1.ev(X, Y)).astype(mz.dtype)
-    else:
-        # use scipy regular grid to interpolate values
-        r1 = scipy.interpolate.RegularGridInterpolator((yi, xi), mz,
-            method=METHOD, bounds_error=False, fill_value=1)
-        mask = np.floor(r1.__call__(np.c_[y, x])).astype(mz.dtype)
-
+    # points are valid where all of the model constituents are valid
+    valid = np.ones((len(lon)), dtype=bool)
+    for TYPE in np.atleast_1d(model.type):
+        # read tidal constants and interpolate to points
+        amp, ph, c = model.extract_constants(lon, lat, type=str(TYPE),
+            method=METHOD)
+        valid &= np.logical_not(np.any(np.ma.getmaskarray(amp), axis=1))
     # reshape to original dimensions
-    valid = np.logical_not(mask).reshape(idim).astype(mz.dtype)
-    # replace points outside model domain with invalid
-    valid &= (X >= xi.min()) & (X <= xi.max())
-    valid &= (Y >= yi.min()) & (Y <= yi.max())
+    valid = valid.reshape(idim)
     # return the valid mask
     return valid
 
-- 
2.43.0


From 9ef3d1fd818a4c3f4995cca6ef4a0ce4a26c4135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 043/112] fix: solid earth tides of grids were evaluated a day
 late

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 1e71e30..bb3740b 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -1405,7 +1405,7 @@ def SET_displacements(
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From fc19b4e41e0c98f1b5d834b0e434219a33e84e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 044/112] fix: displacements for data types in any letter case

---
 pyTMD/compute.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index bb3740b..72a05a7 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -821,15 +821,15 @@ def LPET_elevations(
     tide_time = ts.tide + ts.tt_ut1
 
     # predict long-period equilibrium tides at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_lpe = np.zeros((ny,nx,nt))
         for i in range(nt):
             lpet = pyTMD.predict.equilibrium_tide(tide_time[i], lat)
             tide_lpe[:,:,i] = np.reshape(lpet,(ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         tide_lpe = pyTMD.predict.equilibrium_tide(tide_time, lat)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_lpe = np.zeros((nstation,nt))
         for s in range(nstation):
@@ -974,7 +974,7 @@ def LPT_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Srad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -994,7 +994,7 @@ def LPT_displacements(
             # reshape to output dimensions
             Srad.data[:,:,i] = np.reshape(S[:,2], (ny,nx))
             Srad.mask[:,:,i] = np.isnan(Srad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate load pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.load_pole_tide(ts.tide, XYZ,
@@ -1011,7 +1011,7 @@ def LPT_displacements(
         Srad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Srad.data[:] = S[:,2].copy()
         Srad.mask = np.isnan(Srad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Srad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1196,7 +1196,7 @@ def OPT_displacements(
     UXYZ = np.einsum('ti...,tji...->tj...', np.c_[un, ue, ur], R)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Urad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1218,7 +1218,7 @@ def OPT_displacements(
             # reshape to output dimensions
             Urad.data[:,:,i] = np.reshape(U[:,2], (ny,nx))
             Urad.mask[:,:,i] = np.isnan(Urad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate ocean pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.ocean_pole_tide(ts.tide, XYZ, UXYZ,
@@ -1237,7 +1237,7 @@ def OPT_displacements(
         Urad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Urad.data[:] = U[:,2].copy()
         Urad.mask = np.isnan(Urad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Urad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1398,7 +1398,7 @@ def SET_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_se = np.zeros((ny,nx,nt))
         # convert coordinates to column arrays
@@ -1417,7 +1417,7 @@ def SET_displacements(
             SE = np.einsum('ti...,tji...->tj...', dxi, R)
             # reshape to output dimensions
             tide_se[:,:,i] = np.reshape(SE[:,2], (ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # convert coordinates to column arrays
         XYZ = np.c_[X, Y, Z]
         SXYZ = np.c_[SX, SY, SZ]
@@ -1430,7 +1430,7 @@ def SET_displacements(
         SE = np.einsum('ti...,tji...->tj...', dxi, R)
         # reshape to output dimensions
         tide_se = SE[:,2].copy()
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_se = np.zeros((nstation,nt))
         # convert coordinates to column arrays
-- 
2.43.0


From 1e6994fd0190cf8ff3c7c479fbda34b401631af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 045/112] fix: ocean pole tide coefficients at longitudes east
 of the antimeridian

---
 pyTMD/io/IERS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 1758510..ce2a263 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -107,6 +107,8 @@ def extract_coefficients(
     kwargs.setdefault('method', 'spline')
     # number of points
     npts = len(np.atleast_1d(lat))
+    # adjust longitudes to the convention of the map (-180:180)
+    lon = np.mod(np.asarray(lon) + 180.0, 360.0) - 180.0
     # read ocean pole tide map from Desai (2002)
     Umap = {}
     Umap['R'], Umap['N'], Umap['E'], ilon, ilat = read_binary_file(**kwargs)
-- 
2.43.0


From 64944e6dd538505822dd24f8eab56f5126edf89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 046/112] fix: bilinear interpolation of ocean pole tide
 coefficients

---
 pyTMD/compute.py | 2 +-
 pyTMD/io/IERS.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 72a05a7..ed5e86c 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -1178,7 +1178,7 @@ def OPT_displacements(
 
     # read and interpolate ocean pole tide map from Desai (2002)
     ur, un, ue = pyTMD.io.IERS.extract_coefficients(lon.flatten(),
-        latitude_geocentric, method=METHOD)
+        latitude_geocentric, method=METHOD.lower())
     # rotation matrix for converting to/from cartesian coordinates
     R = np.zeros((npts, 3, 3))
     R[:,0,0] = np.cos(phi)*np.cos(theta)
diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index ce2a263..f04361c 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -91,7 +91,7 @@ def extract_coefficients(
         Interpolation method
 
             - ``'spline'``: scipy bivariate spline interpolation
-            - ``'linear'``, ``'nearest'``: scipy regular grid interpolations
+            - ``'bilinear'``, ``'linear'``, ``'nearest'``: scipy regular grid interpolations
 
     Returns
     -------
@@ -126,10 +126,12 @@ def extract_coefficients(
             Uint[key].imag = f2.ev(lon, lat)
     else:
         # use scipy regular grid to interpolate values for a given method
+        # (the linear method is bilinear for a two-dimensional map)
+        method = kwargs['method'].replace('bilinear', 'linear')
         for key,val in Umap.items():
             Uint[key] = np.zeros((npts), dtype=np.clongdouble)
             r1 = scipy.interpolate.RegularGridInterpolator((ilon,ilat[::-1]),
-                val[:,::-1], bounds_error=False, method=kwargs['method'])
+                val[:,::-1], bounds_error=False, method=method)
             Uint[key][:] = r1.__call__(np.c_[lon, lat])
     # return the interpolated values
     return (Uint['R'], Uint['N'], Uint['E'])
-- 
2.43.0


From 01af0fa74a76c2a1c8c0f74ac1efcada3ba746fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 047/112] fix: ocean pole tide coefficients just west of the
 antimeridian

---
 pyTMD/io/IERS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index f04361c..ba51604 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -107,11 +107,11 @@ def extract_coefficients(
     kwargs.setdefault('method', 'spline')
     # number of points
     npts = len(np.atleast_1d(lat))
-    # adjust longitudes to the convention of the map (-180:180)
-    lon = np.mod(np.asarray(lon) + 180.0, 360.0) - 180.0
     # read ocean pole tide map from Desai (2002)
     Umap = {}
     Umap['R'], Umap['N'], Umap['E'], ilon, ilat = read_binary_file(**kwargs)
+    # adjust longitudes to the range of the (extended) map
+    lon = ilon[0] + np.mod(np.asarray(lon) - ilon[0], 360.0)
     # interpolate ocean pole tide map from Desai (2002)
     Uint = {}
     if (kwargs['method'] == 'spline'):
-- 
2.43.0


From 49bccb49b1c961b6108cc8817d183d2a2edc1f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 048/112] fix: deprecated time functions after the timescale
 class hid the package

---
 pyTMD/time.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyTMD/time.py b/pyTMD/time.py
index c5400b0..4789ada 100644
--- a/pyTMD/time.py
+++ b/pyTMD/time.py
@@ -54,6 +54,7 @@ import logging
 import warnings
 import numpy as np
 import timescale.time
+import timescale.time as _time
 
 __all__ = [
     "parse",
@@ -109,7 +110,7 @@ def parse(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse",
         DeprecationWarning)
-    return timescale.time.parse(date_string)
+    return _time.parse(date_string)
 
 # PURPOSE: parse a date string into epoch and units scale
 def parse_date_string(date_string: str):
@@ -133,7 +134,7 @@ def parse_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse_date_string",
         DeprecationWarning)
-    return timescale.time.parse_date_string(date_string)
+    return _time.parse_date_string(date_string)
 
 # PURPOSE: split a date string into units and epoch
 def split_date_string(date_string: str):
@@ -147,7 +148,7 @@ def split_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.split_date_string",
         DeprecationWarning)
-    return timescale.time.split_date_string(date_string)
+    return _time.split_date_string(date_string)
 
 # PURPOSE: convert a datetime object into a list
 def datetime_to_list(date):
@@ -166,7 +167,7 @@ def datetime_to_list(date):
     """
     warnings.warn("Deprecated. Please use timescale.time.datetime_to_list",
         DeprecationWarning)
-    return timescale.time.datetime_to_list(date)
+    return _time.datetime_to_list(date)
 
 # days per month in a leap and a standard year
 # only difference is February (29 vs. 28)
@@ -190,7 +191,7 @@ def calendar_days(year: int | float | np.ndarray) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.calendar_days",
         DeprecationWarning)
-    return timescale.time.calendar_days(year)
+    return _time.calendar_days(year)
 
 # PURPOSE: convert a numpy datetime array to delta times since an epoch
 def convert_datetime(*args, **kwargs):
@@ -211,7 +212,7 @@ def convert_datetime(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_datetime",
         DeprecationWarning)
-    return timescale.time.convert_datetime(*args, **kwargs)
+    return _time.convert_datetime(*args, **kwargs)
 
 # PURPOSE: convert times from seconds since epoch1 to time since epoch2
 def convert_delta_time(*args, **kwargs):
@@ -231,7 +232,7 @@ def convert_delta_time(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_delta_time",
         DeprecationWarning)
-    return timescale.time.convert_delta_time(*args, **kwargs)
+    return _time.convert_delta_time(*args, **kwargs)
 
 # PURPOSE: calculate the delta time from calendar date
 # http://scienceworld.wolfram.com/astronomy/JulianDate.html
@@ -265,7 +266,7 @@ def convert_calendar_dates(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_dates",
         DeprecationWarning)
-    return timescale.time.convert_calendar_dates(*args, **kwargs)
+    return _time.convert_calendar_dates(*args, **kwargs)
 
 # PURPOSE: Converts from calendar dates into decimal years
 def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
@@ -297,7 +298,7 @@ def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_calendar_decimal(*args, **kwargs)
+    return _time.convert_calendar_decimal(*args, **kwargs)
 
 # PURPOSE: Converts from Julian day to calendar date and time
 def convert_julian(*args, **kwargs):
@@ -335,7 +336,7 @@ def convert_julian(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_julian(*args, **kwargs)
+    return _time.convert_julian(*args, **kwargs)
 
 # delta time (TT - UT1) file
 _delta_file = timescale.utilities.get_data_path(['data','merged_deltat.data'])
-- 
2.43.0


From 5fc835da4181f74aba50d1a410e84e8422d15e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 049/112] fix: unix time of dates without a timezone is in UTC

---
 pyTMD/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 0a3ce57..85abb87 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -408,8 +408,10 @@ def get_unix_time(
         parsed_time = dateutil.parser.parse(time_string.rstrip())
     except (TypeError, ValueError):
         return None
-    else:
-        return parsed_time.timestamp()
+    # dates without a timezone are in UTC (as with formatted dates)
+    if parsed_time.tzinfo is None:
+        parsed_time = parsed_time.replace(tzinfo=dateutil.tz.UTC)
+    return parsed_time.timestamp()
 
 # PURPOSE: output a time string in isoformat
 def isoformat(time_string: str):
-- 
2.43.0


From cf48f896dd4b363129ac03e475ca49e11e3a1603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 050/112] fix: return results of the deprecated earth
 orientation functions

---
 pyTMD/eop.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/eop.py b/pyTMD/eop.py
index c07221c..7bb6756 100644
--- a/pyTMD/eop.py
+++ b/pyTMD/eop.py
@@ -67,7 +67,7 @@ def update_mean_pole(**kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.update_mean_pole",
         DeprecationWarning)
-    timescale.eop.update_mean_pole(**kwargs)
+    return timescale.eop.update_mean_pole(**kwargs)
 
 # PURPOSE: read table of IERS pole coordinates and calculate Gaussian average
 def calculate_mean_pole(**kwargs):
@@ -92,7 +92,7 @@ def calculate_mean_pole(**kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.calculate_mean_pole",
         DeprecationWarning)
-    timescale.eop.calculate_mean_pole(**kwargs)
+    return timescale.eop.calculate_mean_pole(**kwargs)
 
 # PURPOSE: connects to servers and downloads IERS pole coordinates files
 def pull_pole_coordinates(*args, **kwargs):
@@ -119,7 +119,7 @@ def pull_pole_coordinates(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.pull_pole_coordinates",
         DeprecationWarning)
-    timescale.eop.pull_pole_coordinates(*args, **kwargs)
+    return timescale.eop.pull_pole_coordinates(*args, **kwargs)
 
 # PURPOSE: connects to servers and downloads finals files
 def update_finals_file(**kwargs):
@@ -148,7 +148,7 @@ def update_finals_file(**kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.pull_pole_coordinates",
         DeprecationWarning)
-    timescale.eop.update_finals_file(**kwargs)
+    return timescale.eop.update_finals_file(**kwargs)
 
 # IERS mean or secular pole conventions
 _conventions = ('2003', '2010', '2015', '2018')
-- 
2.43.0


From 04b45a0408d33a31283698919377bb3357183df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 051/112] fix: write the bathymetry once in OTIS grid files

---
 pyTMD/io/OTIS.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index b2d9f7c..d2fa132 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1821,7 +1821,6 @@ def output_otis_grid(
     reclen = 4*nx*ny
     # write depth and mask data to file
     fid.write(struct.pack('>i',reclen))
-    hz.tofile(fid,format='>f4')
     for m in range(ny):
         hz[m,:].tofile(fid,format='>f4')
     fid.write(struct.pack('>i',reclen))
-- 
2.43.0


From 80695aa182d81ada4f1c544b3c88a394410fe054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 052/112] fix: write OTIS files in the byte order and types of
 the format

---
 pyTMD/io/OTIS.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index d2fa132..4443a53 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1798,6 +1798,12 @@ def output_otis_grid(
     FILE = pathlib.Path(FILE).expanduser()
     # open output file
     fid = FILE.open(mode='wb')
+    # convert variables to the (big-endian) types of the file
+    xlim = np.asarray(xlim, dtype='>f4')
+    ylim = np.asarray(ylim, dtype='>f4')
+    hz = np.ma.filled(hz, 0).astype('>f4')
+    mz = np.ma.filled(mz, 0).astype('>i4')
+    iob = np.asarray(iob, dtype='>i4')
     nob = len(iob)
     ny, nx = np.shape(hz)
     reclen = 32
@@ -1859,6 +1865,9 @@ def output_otis_elevation(
     FILE = pathlib.Path(FILE).expanduser()
     # open output file
     fid = FILE.open(mode='wb')
+    # convert grid limits to the (big-endian) type of the file
+    xlim = np.asarray(xlim, dtype='>f4')
+    ylim = np.asarray(ylim, dtype='>f4')
     ny, nx, nc = np.shape(h)
     # length of header: allow for 4 character >i c_id strings
     header_length = 4*(7 + nc)
@@ -1915,6 +1924,9 @@ def output_otis_transport(
     FILE = pathlib.Path(FILE).expanduser()
     # open output file
     fid = FILE.open(mode='wb')
+    # convert grid limits to the (big-endian) type of the file
+    xlim = np.asarray(xlim, dtype='>f4')
+    ylim = np.asarray(ylim, dtype='>f4')
     ny, nx, nc = np.shape(u)
     # length of header: allow for 4 character >i c_id strings
     header_length = 4*(7 + nc)
-- 
2.43.0


From bd78a97cf3c7c91a5b489d424c27e54d528bdefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 053/112] fix: keep invalid values when writing OTIS
 constituents

---
 pyTMD/io/OTIS.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 4443a53..9a43ff8 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1868,6 +1868,8 @@ def output_otis_elevation(
     # convert grid limits to the (big-endian) type of the file
     xlim = np.asarray(xlim, dtype='>f4')
     ylim = np.asarray(ylim, dtype='>f4')
+    # invalid values are NaN in the file
+    h = np.ma.filled(h, np.nan)
     ny, nx, nc = np.shape(h)
     # length of header: allow for 4 character >i c_id strings
     header_length = 4*(7 + nc)
@@ -1927,6 +1929,9 @@ def output_otis_transport(
     # convert grid limits to the (big-endian) type of the file
     xlim = np.asarray(xlim, dtype='>f4')
     ylim = np.asarray(ylim, dtype='>f4')
+    # invalid values are NaN in the file
+    u = np.ma.filled(u, np.nan)
+    v = np.ma.filled(v, np.nan)
     ny, nx, nc = np.shape(u)
     # length of header: allow for 4 character >i c_id strings
     header_length = 4*(7 + nc)
-- 
2.43.0


From af6afc9546eaaaed44aea997f124e7d69756b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 054/112] fix: refuse constituent names that do not fit in OTIS
 files

---
 pyTMD/io/OTIS.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 9a43ff8..a62c182 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1861,6 +1861,9 @@ def output_otis_elevation(
     constituents: list
         tidal constituent IDs
     """
+    # constituent names have at most 4 characters in the file
+    if any(len(c) > 4 for c in constituents):
+        raise ValueError(f'Constituent names too long: {constituents}')
     # tilde-expand output file
     FILE = pathlib.Path(FILE).expanduser()
     # open output file
@@ -1922,6 +1925,9 @@ def output_otis_transport(
     constituents: list
         tidal constituent IDs
     """
+    # constituent names have at most 4 characters in the file
+    if any(len(c) > 4 for c in constituents):
+        raise ValueError(f'Constituent names too long: {constituents}')
     # tilde-expand output file
     FILE = pathlib.Path(FILE).expanduser()
     # open output file
-- 
2.43.0


From 592fcabe921520083bca617d6bd875f25246b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 055/112] fix: write netCDF files of constituents with long
 names

---
 pyTMD/io/ATLAS.py | 4 ++--
 pyTMD/io/FES.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 09e04fe..40170e8 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1052,7 +1052,7 @@ def output_netcdf_elevation(
     ny, nx = np.shape(h)
     fileID.createDimension('nx', nx)
     fileID.createDimension('ny', ny)
-    fileID.createDimension('nct', 4)
+    fileID.createDimension('nct', max(len(constituent), 4))
     # defining the NetCDF variables
     nc = {}
     nc['lon_z'] = fileID.createVariable('lon_z', lon_z.dtype, ('nx',))
@@ -1145,7 +1145,7 @@ def output_netcdf_transport(
     ny, nx = np.shape(u)
     fileID.createDimension('nx', nx)
     fileID.createDimension('ny', ny)
-    fileID.createDimension('nct', 4)
+    fileID.createDimension('nct', max(len(constituent), 4))
     # defining the NetCDF variables
     nc = {}
     nc['lon_u'] = fileID.createVariable('lon_u', lon_u.dtype, ('nx',))
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index d8acfcf..3fd0a2f 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -778,7 +778,7 @@ def output_netcdf_file(
     # define the NetCDF dimensions
     fileID.createDimension('lon', len(lon))
     fileID.createDimension('lat', len(lat))
-    fileID.createDimension('nct', 4)
+    fileID.createDimension('nct', max(len(constituent), 4))
     # calculate amplitude and phase
     amp = np.abs(hc)
     ph = 180.0*np.arctan2(-np.imag(hc), np.real(hc))/np.pi
-- 
2.43.0


From 69e597c047cf1e427fd8915fa8c55c2c142cd990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 056/112] fix: write FES netCDF files of tidal currents

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 3fd0a2f..66367f0 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -813,7 +813,7 @@ def output_netcdf_file(
     # filling the NetCDF variables
     nc['lon'][:] = lon[:]
     nc['lat'][:] = lat[:]
-    nc['amplitude'][:] = amp[:]
+    nc[amp_key][:] = amp[:]
     nc[phase_key][:] = ph[:]
     # set variable attributes for coordinates
     nc['lon'].setncattr('axis', 'X')
-- 
2.43.0


From 66fe4278a376649bcbf9135004c2e12219dcfa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 057/112] fix: read constituent names of ATLAS files with a
 text encoding

---
 pyTMD/io/ATLAS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 40170e8..de15e1f 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -843,6 +843,8 @@ def read_netcdf_elevation(
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
     # constituent name
+    # (as characters also if the variable has a text encoding)
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
@@ -902,6 +904,8 @@ def read_netcdf_transport(
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
     # constituent name
+    # (as characters also if the variable has a text encoding)
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
-- 
2.43.0


From 572e7ec743018a6210615ecba1b43c9700802f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 058/112] fix: model files of the program that reduces OTIS
 models to regions

---
 scripts/reduce_OTIS_files.py | 38 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index 0ccfa48..2f8c03c 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -145,24 +145,28 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
         # get parameters for tide model
         model = model.elevation(TIDE_MODEL)
     except Exception as exc:
-        pass
+        model_file['z'] = []
     else:
+        # elevation file or files (if one for each constituent)
+        model_file['z'] = model.model_file if \
+            isinstance(model.model_file, list) else [model.model_file]
+    # for each elevation file
+    for FILE in model_file['z']:
         # read each constituent
-        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['z'])
+        constituents,nc = pyTMD.io.OTIS.read_constituents(FILE)
         z1 = np.zeros((ny,nx,nc),dtype=np.complex64)
         for i,c in enumerate(constituents):
             # read constituent from elevation file
             if (model.format == 'ATLAS-compact'):
-                z0,zlocal = pyTMD.io.OTIS.read_atlas_elevation(
-                    model_file['z'], i, c)
+                z0,zlocal = pyTMD.io.OTIS.read_atlas_elevation(FILE, i, c)
                 xi,yi,z=pyTMD.io.OTIS.combine_atlas_model(x0, y0, z0, pmask,
                     zlocal, variable='z')
             else:
-                z = pyTMD.io.OTIS.read_otis_elevation(model_file['z'], i)
+                z = pyTMD.io.OTIS.read_otis_elevation(FILE, i)
             # reduce elevation to new bounds
-            z1[:,:,i] = z[indy,indx].reshape(ny,nx)
+            z1[:,:,i] = np.ma.filled(z,np.nan)[indy,indx].reshape(ny,nx)
         # output reduced elevation components
-        new_model_file['z'] = create_unique_filename(model_file['z'])
+        new_model_file['z'] = create_unique_filename(FILE)
         pyTMD.io.OTIS.output_otis_elevation(new_model_file['z'], z1,
             xlim, ylim, constituents)
         # change the permissions level to MODE
@@ -174,28 +178,32 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
         # get parameters for tide model
         model = model.current(TIDE_MODEL)
     except Exception as exc:
-        pass
+        model_file['u'] = []
     else:
+        # transport file or files (if one for each constituent)
+        model_file['u'] = model.model_file['u'] if \
+            isinstance(model.model_file['u'], list) else [model.model_file['u']]
+    # for each transport file
+    for FILE in model_file['u']:
         # read each constituent
-        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['u'])
+        constituents,nc = pyTMD.io.OTIS.read_constituents(FILE)
         u1 = np.zeros((ny,nx,nc),dtype=np.complex64)
         v1 = np.zeros((ny,nx,nc),dtype=np.complex64)
         for i,c in enumerate(constituents):
             # read constituent from transport file
             if (model.format == 'ATLAS-compact'):
-                u0,v0,uvlocal = pyTMD.io.OTIS.read_atlas_transport(
-                    model_file['u'], i, c)
+                u0,v0,uvlocal = pyTMD.io.OTIS.read_atlas_transport(FILE, i, c)
                 xi,yi,u = pyTMD.io.OTIS.combine_atlas_model(x0, y0, u0, pmask,
                     uvlocal, variable='u')
                 xi,yi,v = pyTMD.io.OTIS.combine_atlas_model(x0, y0, v0, pmask,
                     uvlocal, variable='v')
             else:
-                u,v = pyTMD.io.OTIS.read_otis_transport(model_file['u'],i)
+                u,v = pyTMD.io.OTIS.read_otis_transport(FILE, i)
             # reduce transport components to new bounds
-            u1[:,:,i] = u[indy,indx].reshape(ny,nx)
-            v1[:,:,i] = v[indy,indx].reshape(ny,nx)
+            u1[:,:,i] = np.ma.filled(u,np.nan)[indy,indx].reshape(ny,nx)
+            v1[:,:,i] = np.ma.filled(v,np.nan)[indy,indx].reshape(ny,nx)
         # output reduced transport components
-        new_model_file['uv'] = create_unique_filename(model_file['u'])
+        new_model_file['u'] = create_unique_filename(FILE)
         pyTMD.io.OTIS.output_otis_transport(new_model_file['u'], u1, v1,
             xlim, ylim, constituents)
         # change the permissions level to MODE
-- 
2.43.0


From 57fe45470277616d641bbf380cc3a8ecd278032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 059/112] fix: error for unknown coordinate reference systems

---
 pyTMD/crs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index aba0ce1..2e66892 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -141,7 +141,7 @@ class crs:
         else:
             return self
         # projection not found or available
-        raise pyproj.exceptions.CRSError
+        raise pyproj.exceptions.CRSError(f'Unknown projection: {PROJ}')
 
     def transform(self,
             i1: np.ndarray,
@@ -193,26 +193,26 @@ class crs:
         # coordinate reference system dictoinary
         try:
             CRS = pyproj.CRS.from_user_input(PROJECTION)
-        except (ValueError, pyproj.exceptions.CRSError):
+        except (ValueError, TypeError, pyproj.exceptions.CRSError):
             pass
         else:
             return CRS
         # EPSG projection code
         try:
             CRS = pyproj.CRS.from_epsg(int(PROJECTION))
-        except (ValueError, pyproj.exceptions.CRSError):
+        except (ValueError, TypeError, pyproj.exceptions.CRSError):
             pass
         else:
             return CRS
         # coordinate reference system string
         try:
             CRS = pyproj.CRS.from_string(PROJECTION)
-        except (ValueError, pyproj.exceptions.CRSError):
+        except (ValueError, TypeError, pyproj.exceptions.CRSError):
             pass
         else:
             return CRS
         # no projection can be made
-        raise pyproj.exceptions.CRSError
+        raise pyproj.exceptions.CRSError(f'Unknown projection: {PROJECTION}')
 
     @property
     def direction(self):
-- 
2.43.0


From 10a8ba4ab3ff97cf43ad963c5e6efd919fc24339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 060/112] fix: additional model databases are merged with the
 default database

---
 pyTMD/io/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 72f3603..24b5b5a 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -126,7 +126,10 @@ def load_database(extra_databases: list = []):
     # load any additional databases
     for db in extra_databases:
         with open(db, 'r', encoding='utf-8') as fid:
-            parameters.update(json.load(fid))
+            extra = json.load(fid)
+        # merge the models of each variable into the database
+        for variable, models in extra.items():
+            parameters.setdefault(variable, {}).update(models)
     # return parameters
     return DataBase(**parameters)
 
-- 
2.43.0


From bcc1474d8a2ffa88e6b59a701abc9ac031308ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 061/112] fix: model parameters and cached constants do not
 persist between models

---
 pyTMD/io/model.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 24b5b5a..f87dee5 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -247,9 +247,12 @@ class model:
         parameters = load_database(extra_databases=extra_databases)
         # try to extract parameters for model
         try:
-            self.from_dict(parameters['elevation'][m])
+            entry = parameters['elevation'][m]
         except (ValueError, KeyError) as exc:
             raise ValueError(f"Unlisted tide model {m}")
+        # replace the parameters of any previous model
+        self._reset()
+        self.from_dict(entry)
         # validate paths: grid file for OTIS, ATLAS models
         if hasattr(self, 'grid_file') and getattr(self, 'grid_file'):
             self.grid_file = self.pathfinder(self.grid_file)
@@ -280,9 +283,12 @@ class model:
         parameters = load_database(extra_databases=extra_databases)
         # try to extract parameters for model
         try:
-            self.from_dict(parameters['current'][m])
+            entry = parameters['current'][m]
         except (ValueError, KeyError) as exc:
             raise ValueError(f"Unlisted tide model {m}")
+        # replace the parameters of any previous model
+        self._reset()
+        self.from_dict(entry)
         # validate paths: grid file for OTIS, ATLAS models
         if hasattr(self, 'grid_file') and getattr(self, 'grid_file'):
             self.grid_file = self.pathfinder(self.grid_file)
@@ -691,6 +697,8 @@ class model:
         """
         # load JSON file
         parameters = json.load(fid)
+        # replace the parameters of any previous model
+        self._reset()
         # convert from dictionary to model variable
         temp = self.from_dict(parameters)
         # verify model name, format and type
@@ -862,6 +870,19 @@ class model:
         # assert that tide model is a known format
         assert self.format in self.formats()
 
+    def _reset(self):
+        """
+        Remove the parameters and constants of a previously loaded model
+        """
+        self.flexure = False
+        for key in ('constituents', 'format', 'grid_file', 'minor',
+            'model_file', 'name', 'projection', 'reference', 'scale',
+            'type', 'variable', 'version'):
+            setattr(self, key, None)
+        # remove any cached constituents
+        for key in ('_constituents', '_constituents_type'):
+            self.__dict__.pop(key, None)
+
     def from_dict(self, d: dict):
         """
         Create a model object from a python dictionary
-- 
2.43.0


From 5bb3abbd6d01af0e456bca944ffa1de3b051df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 062/112] fix: model dictionaries are independent of the model
 object

---
 pyTMD/io/model.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index f87dee5..0b4b5ca 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -893,7 +893,7 @@ class model:
             Python dictionary for creating model object
         """
         for key, val in d.items():
-            setattr(self, key, copy.copy(val))
+            setattr(self, key, copy.deepcopy(val))
         # return the model parameters
         return self
 
@@ -919,7 +919,7 @@ class model:
         # for each field
         for key in kwargs['fields']:
             if hasattr(self, key) and getattr(self, key) is not None:
-                d[key] = getattr(self, key)
+                d[key] = copy.deepcopy(getattr(self, key))
         # serialize dictionary for JSON output
         if kwargs['serialize']:
             d = self.serialize(d)
@@ -935,17 +935,21 @@ class model:
         d: dict
             Python dictionary to serialize
         """
+        # output dictionary (leaves the input dictionary as is)
+        output = {}
         # iterate over keys
         for key, val in d.items():
-            val = copy.copy(d[key])
             if isinstance(val, pathlib.Path):
-                d[key] = str(val)
-            elif isinstance(val, (list, tuple)) and isinstance(val[0], pathlib.Path):
-                d[key] = [str(v) for v in val]
+                output[key] = str(val)
+            elif isinstance(val, (list, tuple)):
+                output[key] = [str(v) if isinstance(v, pathlib.Path) else v
+                    for v in val]
             elif isinstance(val, dict):
-                d[key] = self.serialize(val)
+                output[key] = self.serialize(val)
+            else:
+                output[key] = copy.copy(val)
         # return the model dictionary
-        return d
+        return output
 
     def parse_constituents(self) -> list:
         """
-- 
2.43.0


From 9bfb859f0f16e1fa7355b89ad7a72be0c96eddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 063/112] fix: model dictionaries include compression and minor
 constituents

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 0b4b5ca..d2390be 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -910,7 +910,8 @@ class model:
         """
         # default fields
         keys = ['name', 'format', 'type', 'grid_file', 'model_file', 'projection',
-            'variable', 'scale', 'constituents', 'version', 'reference']
+            'variable', 'scale', 'constituents', 'version', 'reference',
+            'compressed', 'minor']
         # set default keyword arguments
         kwargs.setdefault('fields', keys)
         kwargs.setdefault('serialize', False)
-- 
2.43.0


From f615c8b33395a4bbe632eec3e419ed7733bc955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 064/112] fix: model definitions can be read from open file
 objects

---
 pyTMD/io/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index d2390be..07bb3bb 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -653,7 +653,11 @@ class model:
         kwargs.setdefault('format', 'json')
         # Opening definition file and assigning file ID number
         if isinstance(definition_file, io.IOBase):
-            fid = copy.copy(definition_file)
+            # read from the contents of the open file object
+            contents = definition_file.read()
+            if isinstance(contents, bytes):
+                contents = contents.decode('utf8')
+            fid = io.StringIO(contents)
         else:
             definition_file = pathlib.Path(definition_file).expanduser()
             fid = definition_file.open(mode='r', encoding='utf8')
-- 
2.43.0


From 361fdfbccf46ff873491b933c24d09e5dd09cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 065/112] fix: model files found from patterns are in a
 reproducible order

---
 pyTMD/io/model.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 07bb3bb..a909f1e 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -728,24 +728,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
             elif (temp.type == ['u','v']) and isinstance(temp.model_file, dict):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
@@ -775,24 +775,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
                 #     raise FileNotFoundError(message) from exc
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
@@ -815,24 +815,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-- 
2.43.0


From 253afec70327203e791a937b671c23ab328783e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 066/112] fix: writing netCDF4 and HDF5 files leaves the
 attributes unmodified

---
 pyTMD/spatial.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 76a869a..e6861b7 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -955,7 +955,6 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('time',),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif val.shape:
             nc[key] = fileID.createVariable(key, val.dtype, ('time',))
         else:
@@ -964,7 +963,9 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill values are set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
@@ -997,7 +998,6 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif (val.ndim == 3):
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
         elif (val.ndim == 2):
@@ -1014,7 +1014,9 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill values are set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
@@ -1046,7 +1048,6 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif (val.ndim == 2):
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
         elif val.shape and (len(val) == nt):
@@ -1059,7 +1060,9 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill values are set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def to_HDF5(
         output: dict,
@@ -1095,7 +1098,6 @@ def to_HDF5(
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
                 compression='gzip')
-            attributes[key].pop('_FillValue')
         elif val.shape:
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
-- 
2.43.0


From c8765dd7808df6411064a56baaa0ba33a45cb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 067/112] fix: writing parquet files leaves the attributes
 unmodified

---
 pyTMD/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index e6861b7..6f4b79f 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1230,6 +1230,8 @@ def to_parquet(
     kwargs.setdefault('geoparquet', False)
     kwargs.setdefault('geometry_encoding', 'WKB')
     kwargs.setdefault('primary_column', 'geometry')
+    # copy attributes (leaves the input dictionary as is)
+    attributes = copy.copy(attributes)
     # convert to pandas dataframe
     df = pd.DataFrame(output)
     attrs = df.attrs.copy()
-- 
2.43.0


From a252c02dee94bc52e0b1188fb13324143c1f1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 068/112] fix: writing geotiff files leaves the data unmodified

---
 pyTMD/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 6f4b79f..708a5bf 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1319,6 +1319,8 @@ def expand_dims(obj: dict, varname: str = 'data'):
     varname: str, default data
         variable name to expand
     """
+    # copy dictionary (leaves the input dictionary as is)
+    obj = copy.copy(obj)
     # change time dimensions to be iterableinformation
     try:
         obj['time'] = np.atleast_1d(obj['time'])
-- 
2.43.0


From d4a9bc72eef943b5995c55a82da3a3e3217d7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 069/112] fix: masked values are written to HDF5 files as fill
 values

---
 pyTMD/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 708a5bf..0fddd7d 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1092,6 +1092,9 @@ def to_HDF5(
     # Defining the HDF5 dataset variables
     h5 = {}
     for key, val in output.items():
+        # replace masked values with the fill value
+        if np.ma.isMaskedArray(val):
+            val = val.filled(attributes[key].get('_FillValue'))
         if key in fileID:
             fileID[key][...] = val[:]
         elif '_FillValue' in attributes[key].keys():
-- 
2.43.0


From e7bcfad89aa71a08feb938020bc3c92028f366da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 070/112] fix: masked values are written to geotiff files as
 fill values

---
 pyTMD/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 0fddd7d..e9d0356 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1182,14 +1182,16 @@ def to_geotiff(
     srs.ImportFromWkt(attributes['wkt'])
     # export
     ds.SetProjection( srs.ExportToWkt() )
+    # replace masked values with the fill value
+    data = np.ma.filled(output[varname], attributes[varname].get('_FillValue'))
     # for each band
     for band in range(nband):
         # set fill value for band
         if '_FillValue' in attributes[varname].keys():
-            fill_value = attributes[varname]['_FillValue']
+            fill_value = float(attributes[varname]['_FillValue'])
             ds.GetRasterBand(band+1).SetNoDataValue(fill_value)
         # write band to geotiff array
-        ds.GetRasterBand(band+1).WriteArray(output[varname][:, :, band])
+        ds.GetRasterBand(band+1).WriteArray(data[:, :, band])
     # print filename if verbose
     logging.info(str(filename))
     # close dataset
-- 
2.43.0


From f6aaf3b919e21055287333df0601bde5dc12aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 071/112] fix: masked values are written to ascii files as fill
 values

---
 pyTMD/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index e9d0356..1497c98 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -838,7 +838,9 @@ def to_ascii(
     # open the output file
     fid = filename.open(mode='w', encoding='utf8')
     # create a column stack arranging data in column order
-    data_stack = np.c_[[output[col] for col in columns]]
+    # (replacing masked values with the fill value)
+    data_stack = np.c_[[np.ma.filled(output[col],
+        attributes.get(col, {}).get('_FillValue')) for col in columns]]
     ncol, nrow = np.shape(data_stack)
     # print YAML header to top of file
     if kwargs['header']:
-- 
2.43.0


From dacb06974d2a905cb42a615a4c75a572c7de9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 072/112] fix: scalar variables of HDF5 files are written and
 read

---
 pyTMD/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 1497c98..178171b 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -549,7 +549,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     # for each variable
     for key, h5 in kwargs['field_mapping'].items():
         # Getting the data from each HDF5 variable
-        dinput[key] = np.copy(group[h5][:])
+        dinput[key] = np.copy(group[h5][()])
         # get attributes for the included variables
         dinput['attributes'][key] = {}
         for attr in attributes_list:
@@ -1107,7 +1107,7 @@ def to_HDF5(
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
         else:
-            h5[key] = fileID.create_dataset(key, val.shape,
+            h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype)
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-- 
2.43.0


From e9bd0e93c28aebbbaf373195897751df27ea2078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 073/112] fix: variables of existing HDF5 files can be updated

---
 pyTMD/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 178171b..7d5a0cc 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1098,7 +1098,8 @@ def to_HDF5(
         if np.ma.isMaskedArray(val):
             val = val.filled(attributes[key].get('_FillValue'))
         if key in fileID:
-            fileID[key][...] = val[:]
+            h5[key] = fileID[key]
+            h5[key][...] = val
         elif '_FillValue' in attributes[key].keys():
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
-- 
2.43.0


From 56adfacc070a9c8f6e73f5a19ec922e04d8b3c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 074/112] fix: variables of existing netCDF4 files can be
 updated

---
 pyTMD/spatial.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 7d5a0cc..a10f8e5 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -948,7 +948,8 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
 
     # Defining the NetCDF dimensions
-    fileID.createDimension('time', len(np.atleast_1d(output['time'])))
+    if 'time' not in fileID.dimensions:
+        fileID.createDimension('time', len(np.atleast_1d(output['time'])))
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
@@ -989,9 +990,9 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 3]
     ny, nx, nt = output[reference_fields[0]].shape
-    fileID.createDimension('y', ny)
-    fileID.createDimension('x', nx)
-    fileID.createDimension('time', nt)
+    for name, size in (('y', ny), ('x', nx), ('time', nt)):
+        if name not in fileID.dimensions:
+            fileID.createDimension(name, size)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
@@ -1040,8 +1041,9 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 2]
     nstation, nt = output[reference_fields[0]].shape
-    fileID.createDimension('station', nstation)
-    fileID.createDimension('time', nt)
+    for name, size in (('station', nstation), ('time', nt)):
+        if name not in fileID.dimensions:
+            fileID.createDimension(name, size)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
-- 
2.43.0


From e9158963628fd6ae62405d5ba69e702f083e4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 075/112] fix: netCDF4 variables have the dimensions of their
 coordinates

---
 pyTMD/spatial.py | 71 ++++++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index a10f8e5..bbc50cb 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -956,8 +956,9 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
         elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
+            nc[key] = fileID.createVariable(key, val.dtype,
+                ('time',) if val.shape else (),
+                fill_value=attributes[key]['_FillValue'], zlib=bool(val.shape))
         elif val.shape:
             nc[key] = fileID.createVariable(key, val.dtype, ('time',))
         else:
@@ -998,21 +999,32 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     for key, val in output.items():
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
-        elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
-        elif (val.ndim == 3):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
-        elif (val.ndim == 2):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x'))
-        elif val.shape and (len(val) == ny):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y',))
-        elif val.shape and (len(val) == nx):
-            nc[key] = fileID.createVariable(key, val.dtype, ('x',))
-        elif val.shape and (len(val) == nt):
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',))
         else:
-            nc[key] = fileID.createVariable(key, val.dtype, ())
+            # dimensions of the variable
+            # (coordinate variables are along their own dimension)
+            if (val.ndim == 3):
+                dims = ('y', 'x', 'time')
+            elif (val.ndim == 2):
+                dims = ('y', 'x')
+            elif val.shape and key in ('lat', 'latitude', 'y') and (len(val) == ny):
+                dims = ('y',)
+            elif val.shape and key in ('lon', 'longitude', 'x') and (len(val) == nx):
+                dims = ('x',)
+            elif val.shape and key in ('t', 'time') and (len(val) == nt):
+                dims = ('time',)
+            elif val.shape and (len(val) == ny):
+                dims = ('y',)
+            elif val.shape and (len(val) == nx):
+                dims = ('x',)
+            elif val.shape and (len(val) == nt):
+                dims = ('time',)
+            else:
+                dims = ()
+            if '_FillValue' in attributes[key].keys():
+                nc[key] = fileID.createVariable(key, val.dtype, dims,
+                    fill_value=attributes[key]['_FillValue'], zlib=bool(dims))
+            else:
+                nc[key] = fileID.createVariable(key, val.dtype, dims)
         # filling NetCDF variables
         nc[key][:] = val
         # Defining attributes for variable
@@ -1049,17 +1061,24 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     for key, val in output.items():
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
-        elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
-        elif (val.ndim == 2):
-            nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
-        elif val.shape and (len(val) == nt):
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',))
-        elif val.shape and (len(val) == nstation):
-            nc[key] = fileID.createVariable(key, val.dtype, ('station',))
         else:
-            nc[key] = fileID.createVariable(key, val.dtype, ())
+            # dimensions of the variable
+            # (coordinate variables are along their own dimension)
+            if (val.ndim == 2):
+                dims = ('station', 'time')
+            elif val.shape and key in dimensions[2:] and (len(val) == nstation):
+                dims = ('station',)
+            elif val.shape and (len(val) == nt):
+                dims = ('time',)
+            elif val.shape and (len(val) == nstation):
+                dims = ('station',)
+            else:
+                dims = ()
+            if '_FillValue' in attributes[key].keys():
+                nc[key] = fileID.createVariable(key, val.dtype, dims,
+                    fill_value=attributes[key]['_FillValue'], zlib=bool(dims))
+            else:
+                nc[key] = fileID.createVariable(key, val.dtype, dims)
         # filling NetCDF variables
         nc[key][:] = val
         # Defining attributes for variable
-- 
2.43.0


From c2ebb2670b93846619a451238bbfdc778f01e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 076/112] fix: invalid data are masked for all fill values

---
 pyTMD/spatial.py | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index bbc50cb..fef1713 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -141,6 +141,7 @@ __all__ = [
     "to_HDF5",
     "to_geotiff",
     "to_parquet",
+    "mask_fill_value",
     "expand_dims",
     "default_field_mapping",
     "inverse_mapping",
@@ -355,9 +356,8 @@ def from_ascii(filename: str, **kwargs):
                 dinput[c][i] = np.float64(column[c])
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'] = mask_fill_value(dinput['data'],
+            dinput['attributes']['data']['_FillValue'])
     # return the spatial variables
     return dinput
 
@@ -463,9 +463,8 @@ def from_netCDF4(filename: str, **kwargs):
         dinput['attributes']['projection'] = srs.ExportToProj4()
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'] = mask_fill_value(dinput['data'],
+            dinput['attributes']['data']['_FillValue'])
     # Closing the NetCDF file
     fileID.close()
     # return the spatial variables
@@ -574,9 +573,8 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         dinput['attributes']['projection'] = srs.ExportToProj4()
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'] = mask_fill_value(dinput['data'],
+            dinput['attributes']['data']['_FillValue'])
     # Closing the HDF5 file
     fileID.close()
     # return the spatial variables
@@ -670,11 +668,9 @@ def from_geotiff(filename: str, **kwargs):
     # check if image has fill values
     dinput['data'] = np.ma.asarray(dinput['data'])
     dinput['data'].mask = np.zeros_like(dinput['data'], dtype=bool)
-    if ds.GetRasterBand(1).GetNoDataValue():
-        # mask invalid values
-        dinput['data'].fill_value = ds.GetRasterBand(1).GetNoDataValue()
-        # create mask array for bad values
-        dinput['data'].mask[:] = (dinput['data'].data == dinput['data'].fill_value)
+    if ds.GetRasterBand(1).GetNoDataValue() is not None:
+        dinput['data'] = mask_fill_value(dinput['data'],
+            ds.GetRasterBand(1).GetNoDataValue())
         # set attribute for fill value
         dinput['attributes']['data']['_FillValue'] = dinput['data'].fill_value
     # close the dataset
@@ -1337,6 +1333,27 @@ def to_parquet(
         compression=kwargs['compression']
     )
 
+def mask_fill_value(data: np.ndarray, fill_value):
+    """
+    Convert an array to a masked array using a fill value
+
+    Parameters
+    ----------
+    data: np.ndarray
+        data array
+    fill_value: float, int or str
+        value of the invalid data (possibly NaN)
+    """
+    data = np.ma.asarray(data)
+    # fill value in the data type of the array
+    data.fill_value = np.array(fill_value).astype(data.dtype)
+    mask = np.ma.getmaskarray(data) | (data.data == data.fill_value)
+    # NaNs are not equal to themselves
+    if (data.fill_value != data.fill_value):
+        mask |= (data.data != data.data)
+    data.mask = mask
+    return data
+
 def expand_dims(obj: dict, varname: str = 'data'):
     """
     Add a singleton dimension to a spatial dictionary if non-existent
-- 
2.43.0


From 7cc08c43847af57be636392881d14ee2d2c3d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 077/112] fix: attributes of netCDF4 files are found by their
 complete names

---
 pyTMD/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index fef1713..e752062 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -414,7 +414,7 @@ def from_netCDF4(filename: str, **kwargs):
     for attr in ['title', 'description', 'projection']:
         # try getting the attribute
         try:
-            ncattr, = [s for s in fileID.ncattrs() if re.match(attr, s, re.I)]
+            ncattr, = [s for s in fileID.ncattrs() if re.fullmatch(attr, s, re.I)]
             dinput['attributes'][attr] = fileID.getncattr(ncattr)
         except (ValueError, AttributeError):
             pass
@@ -441,7 +441,7 @@ def from_netCDF4(filename: str, **kwargs):
             # try getting the attribute
             try:
                 ncattr, = [s for s in group.variables[nc].ncattrs()
-                    if re.match(attr, s, re.I)]
+                    if re.fullmatch(attr, s, re.I)]
                 dinput['attributes'][key][attr] = \
                     group.variables[nc].getncattr(ncattr)
             except (ValueError, AttributeError):
-- 
2.43.0


From bcba4d8ae29e151005f602e0f7cab5e4943a20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 078/112] fix: bands of geotiff files are the last dimension

---
 pyTMD/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index e752062..f43a9b7 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -667,6 +667,9 @@ def from_geotiff(filename: str, **kwargs):
     dinput.setdefault('time', np.zeros((bsize)))
     # check if image has fill values
     dinput['data'] = np.ma.asarray(dinput['data'])
+    # bands are the last dimension (as in output files)
+    if (dinput['data'].ndim == 3):
+        dinput['data'] = np.ma.asarray(np.moveaxis(dinput['data'], 0, 2))
     dinput['data'].mask = np.zeros_like(dinput['data'], dtype=bool)
     if ds.GetRasterBand(1).GetNoDataValue() is not None:
         dinput['data'] = mask_fill_value(dinput['data'],
-- 
2.43.0


From 81a8b1c74cda3fa6b8d15c84bffab72ed5c06e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 079/112] fix: cloud optimized geotiff files can be written

---
 pyTMD/spatial.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index f43a9b7..c297900 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1190,10 +1190,16 @@ def to_geotiff(
     ny, nx, nband = np.shape(output[varname])
     # output as geotiff or specified driver
     driver = osgeo.gdal.GetDriverByName(kwargs['driver'])
+    # some drivers (such as cog) can only copy a complete dataset
+    create_copy = (driver.GetMetadataItem(osgeo.gdal.DCAP_CREATE) is None)
     # set up the dataset with creation options
     filename = pathlib.Path(filename).expanduser().absolute()
-    ds = driver.Create(str(filename), nx, ny, nband,
-        kwargs['dtype'], kwargs['options'])
+    if create_copy:
+        ds = osgeo.gdal.GetDriverByName('MEM').Create('', nx, ny, nband,
+            kwargs['dtype'])
+    else:
+        ds = driver.Create(str(filename), nx, ny, nband,
+            kwargs['dtype'], kwargs['options'])
     # top left x, w-e pixel resolution, rotation
     # top left y, rotation, n-s pixel resolution
     xmin, xmax, ymin, ymax = attributes['extent']
@@ -1217,6 +1223,9 @@ def to_geotiff(
         ds.GetRasterBand(band+1).WriteArray(data[:, :, band])
     # print filename if verbose
     logging.info(str(filename))
+    # copy to output driver
+    if create_copy:
+        ds = driver.CreateCopy(str(filename), ds, options=kwargs['options'])
     # close dataset
     ds.FlushCache()
 
-- 
2.43.0


From 7d2ee0907e5e3a5598d3aeae0dd58b6cf7d09eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 080/112] fix: compressed HDF5 files can be read from a text
 path

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c297900..1f6716f 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -508,7 +508,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         with gzip.open(case_insensitive_filename(filename), 'r') as f:
             fid = io.BytesIO(f.read())
         # set filename of BytesIO object
-        fid.filename = filename.name
+        fid.filename = pathlib.Path(filename).name
         # rewind to start of file
         fid.seek(0)
         # read as in-memory (diskless) HDF5 dataset from BytesIO object
-- 
2.43.0


From 52c4c05a016eeec9f12fc23b30201827b98140b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 081/112] fix: compressed and in-memory ascii files are read as
 files on disk

---
 pyTMD/spatial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 1f6716f..2057dea 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -283,10 +283,13 @@ def from_ascii(filename: str, **kwargs):
         # read input ascii data from gzip compressed file and split lines
         filename = case_insensitive_filename(filename)
         with gzip.open(filename, 'r') as f:
-            file_contents = f.read().decode('ISO-8859-1').splitlines()
+            file_contents = f.read().decode('utf8').splitlines()
     elif (kwargs['compression'] == 'bytes'):
         # read input file object and split lines
-        file_contents = filename.read().splitlines()
+        file_contents = filename.read()
+        if isinstance(file_contents, bytes):
+            file_contents = file_contents.decode('utf8')
+        file_contents = file_contents.splitlines()
     else:
         # read input ascii file (.txt, .asc) and split lines
         filename = case_insensitive_filename(filename)
-- 
2.43.0


From 84e2857d50f16e3bdc556ade3ba99cc43cdb0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 082/112] fix: attributes with special characters are quoted in
 YAML headers

---
 pyTMD/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 2057dea..8f8d7c3 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -865,6 +865,9 @@ def to_ascii(
         for i, v in enumerate(columns):
             fid.write('    {0:22}:\n'.format(v))
             for atn, atv in attributes[v].items():
+                # quote text with special characters
+                if isinstance(atv, str) and not re.fullmatch(r'\w[\w ()/.,+-]*', atv):
+                    atv = json.dumps(atv, ensure_ascii=False)
                 fid.write('      {0:20}: {1}\n'.format(atn, atv))
             # add precision and column attributes for ascii yaml header
             fid.write('      {0:20}: double_precision\n'.format('precision'))
-- 
2.43.0


From 360fc0c0203ea10f46769e6d03dce8115efa0fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 083/112] fix: case insensitive lookups find complete file
 names

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 8f8d7c3..2d52403 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -178,7 +178,7 @@ def case_insensitive_filename(filename: str | pathlib.Path):
     if not filename.exists():
         # search for filename without case dependence
         f = [f.name for f in filename.parent.iterdir() if
-            re.match(filename.name, f.name, re.I)]
+            (f.name.lower() == filename.name.lower())]
         # raise error if no file found
         if not f:
             raise FileNotFoundError(str(filename))
-- 
2.43.0


From 3f96f2b37f0a3a5d5d2fdc65f0e799376f2e3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 084/112] fix: parquet files without a projection can be read

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 2d52403..3b8a04b 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -740,7 +740,7 @@ def from_parquet(filename: str, **kwargs):
         # add projection information to attributes
         attr['projection'] = srs.ExportToProj4()
         attr['wkt'] = srs.ExportToWkt()
-    elif 'pyTMD' in attr.keys():
+    elif 'pyTMD' in attr.keys() and 'crs' in attr['pyTMD']:
         # extract crs from pyTMD metadata
         crs_metadata = attr['pyTMD']['crs']
         # create spatial reference object from PROJJSON
-- 
2.43.0


From 1661bd7b87ab8a2ed0f4e2b7921f3bc3fbe93257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 085/112] fix: invalid data of ascii files are masked in all
 columns

---
 pyTMD/spatial.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 3b8a04b..830604c 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -357,10 +357,11 @@ def from_ascii(filename: str, **kwargs):
                 dinput[c][i] = timescale.time.parse(column[c])
             else:
                 dinput[c][i] = np.float64(column[c])
-    # convert to masked array if fill values
-    if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        dinput['data'] = mask_fill_value(dinput['data'],
-            dinput['attributes']['data']['_FillValue'])
+    # convert to masked arrays if fill values
+    for c in columns:
+        if '_FillValue' in dinput['attributes'][c].keys():
+            dinput[c] = mask_fill_value(dinput[c],
+                dinput['attributes'][c]['_FillValue'])
     # return the spatial variables
     return dinput
 
-- 
2.43.0


From 34959309fe45c91033608c39cb2b62600d40ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 086/112] fix: attributes of parquet files can be numpy scalars

---
 pyTMD/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 830604c..24ffd6a 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1334,7 +1334,9 @@ def to_parquet(
     attributes['software_reference'] = pyTMD.version.project_name
     attributes['software_version'] = pyTMD.version.full_version
     # dump the attributes to encoded JSON-format
-    attr_metadata = {b"pyTMD": json.dumps(attributes).encode('utf-8')}
+    # (converting numpy scalars such as fill values)
+    attr_metadata = {b"pyTMD": json.dumps(attributes,
+        default=lambda val: val.item()).encode('utf-8')}
     for att_name, att_val in attrs.items():
         attr_metadata[att_name] = json.dumps(att_val).encode('utf-8')
     # convert dataframe to arrow table
-- 
2.43.0


From 126e2ae4e069d38fefa167318a77fd692b7a9226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:37 +0000
Subject: [PATCH 087/112] fix: fill values of ascii files are numbers

---
 pyTMD/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 24ffd6a..a5e6c9e 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -360,8 +360,10 @@ def from_ascii(filename: str, **kwargs):
     # convert to masked arrays if fill values
     for c in columns:
         if '_FillValue' in dinput['attributes'][c].keys():
-            dinput[c] = mask_fill_value(dinput[c],
-                dinput['attributes'][c]['_FillValue'])
+            # header attributes are text: convert to data type
+            fill_value = np.float64(dinput['attributes'][c]['_FillValue'])
+            dinput[c] = mask_fill_value(dinput[c], fill_value)
+            dinput['attributes'][c]['_FillValue'] = fill_value
     # return the spatial variables
     return dinput
 
-- 
2.43.0


From ce87c840c9fd424feedf67e7dcf8e0852715fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 088/112] fix: read modification times with fractional seconds
 from ftp servers

---
 pyTMD/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 85abb87..dac5844 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -575,7 +575,7 @@ def ftp_list(
                 pass
             else:
                 # convert the modification time into unix time
-                mtimes[i] = get_unix_time(mdtm[4:], format="%Y%m%d%H%M%S")
+                mtimes[i] = get_unix_time(mdtm[4:18], format="%Y%m%d%H%M%S")
         # reduce to basenames
         if basename:
             output = [posixpath.basename(i) for i in output]
@@ -667,7 +667,8 @@ def from_ftp(
         remote_hash = hashlib.md5(remote_buffer.getvalue()).hexdigest()
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {ftp_remote_path}')
-        remote_mtime = get_unix_time(mdtm[4:], format="%Y%m%d%H%M%S")
+        # (ignoring any fractional seconds of the server's reply)
+        remote_mtime = get_unix_time(mdtm[4:18], format="%Y%m%d%H%M%S")
         # compare checksums
         if local and (hash != remote_hash):
             # convert to absolute path
-- 
2.43.0


From f520d427dd8a7e12c5d81485726ad3e1c3e78c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 089/112] fix: refuse http transfers that end before the
 complete file was received

---
 pyTMD/utilities.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index dac5844..d572c39 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -881,6 +881,11 @@ def from_http(
         # copy remote file contents to bytesIO object
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
+        # verify that the complete file was transferred
+        length = response.headers.get('Content-Length')
+        if (length is not None) and (remote_buffer.tell() < int(length)):
+            raise Exception('Incomplete download from {0}'.format(
+                posixpath.join(*HOST)))
         remote_buffer.seek(0)
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
@@ -1447,6 +1452,11 @@ def from_cddis(
         # copy remote file contents to bytesIO object
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
+        # verify that the complete file was transferred
+        length = response.headers.get('Content-Length')
+        if (length is not None) and (remote_buffer.tell() < int(length)):
+            raise Exception('Incomplete download from {0}'.format(
+                posixpath.join(*HOST)))
         remote_buffer.seek(0)
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
-- 
2.43.0


From f012519d8f824da31e3ecf0ecf1a8845381eeed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 090/112] fix: replace local files only after the complete
 remote file is stored

---
 pyTMD/utilities.py | 73 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index d572c39..b7df01a 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -66,6 +66,7 @@ import warnings
 import importlib
 import posixpath
 import subprocess
+import tempfile
 import lxml.etree
 import calendar, time
 import dateutil.parser
@@ -596,6 +597,50 @@ def ftp_list(
         # return the list of items and last modified times
         return (output, mtimes)
 
+# PURPOSE: store a buffer as a local file, replacing any previous version
+def _store_buffer(
+        remote_buffer: io.BytesIO,
+        local: pathlib.Path,
+        chunk: int = 8192,
+        mode: oct = 0o775,
+        mtime: float | None = None
+    ):
+    """
+    Store the contents of a buffer as a local file. Any previous
+    version is only replaced after the complete contents are stored
+
+    Parameters
+    ----------
+    remote_buffer: obj
+        BytesIO representation of file
+    local: pathlib.Path
+        path to local file
+    chunk: int, default 8192
+        chunk size for transfer encoding
+    mode: oct, default 0o775
+        permissions mode of output local file
+    mtime: float or NoneType, default None
+        modification time of output local file
+    """
+    # follow symbolic links to the file being replaced
+    local = pathlib.Path(os.path.realpath(local))
+    # write to a temporary file in the same directory
+    fd, temporary = tempfile.mkstemp(dir=local.parent, prefix=f'.{local.name}.')
+    try:
+        # store bytes to file using chunked transfer encoding
+        remote_buffer.seek(0)
+        with os.fdopen(fd, mode='wb') as f:
+            shutil.copyfileobj(remote_buffer, f, chunk)
+        # change the permissions mode
+        os.chmod(temporary, mode)
+        # keep modification time of file and local access time
+        if mtime is not None:
+            os.utime(temporary, (os.stat(temporary).st_atime, mtime))
+        os.replace(temporary, local)
+    except BaseException:
+        os.unlink(temporary)
+        raise
+
 # PURPOSE: download a file from a ftp host
 def from_ftp(
         HOST: str | list,
@@ -678,14 +723,10 @@ def from_ftp(
             # print file information
             args = (posixpath.join(*HOST), str(local))
             logging.info('{0} -->\n\t{1}'.format(*args))
-            # store bytes to file using chunked transfer encoding
-            remote_buffer.seek(0)
-            with local.open(mode='wb') as f:
-                shutil.copyfileobj(remote_buffer, f, chunk)
-            # change the permissions mode
-            local.chmod(mode)
-            # keep remote modification time of file and local access time
-            os.utime(local, (local.stat().st_atime, remote_mtime))
+            # store bytes to file, changing the permissions mode and
+            # keeping remote modification time of file
+            _store_buffer(remote_buffer, local, chunk=chunk, mode=mode,
+                mtime=remote_mtime)
         # close the ftp connection
         ftp.close()
         # return the bytesIO object
@@ -900,12 +941,8 @@ def from_http(
             # print file information
             args = (posixpath.join(*HOST), str(local))
             logging.info('{0} -->\n\t{1}'.format(*args))
-            # store bytes to file using chunked transfer encoding
-            remote_buffer.seek(0)
-            with local.open(mode='wb') as f:
-                shutil.copyfileobj(remote_buffer, f, chunk)
-            # change the permissions mode
-            local.chmod(mode)
+            # store bytes to file and change the permissions mode
+            _store_buffer(remote_buffer, local, chunk=chunk, mode=mode)
         # return the bytesIO object
         remote_buffer.seek(0)
         return remote_buffer
@@ -1471,12 +1508,8 @@ def from_cddis(
             # print file information
             args = (posixpath.join(*HOST), str(local))
             logging.info('{0} -->\n\t{1}'.format(*args))
-            # store bytes to file using chunked transfer encoding
-            remote_buffer.seek(0)
-            with local.open(mode='wb') as f:
-                shutil.copyfileobj(remote_buffer, f, chunk)
-            # change the permissions mode
-            local.chmod(mode)
+            # store bytes to file and change the permissions mode
+            _store_buffer(remote_buffer, local, chunk=chunk, mode=mode)
         # return the bytesIO object
         remote_buffer.seek(0)
         return remote_buffer
-- 
2.43.0


From c393fdec10e92de175c0c1993acf3455937b357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 091/112] fix: calculate hashes of open file objects

---
 pyTMD/utilities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index b7df01a..e9e9a0d 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -230,7 +230,12 @@ def get_hash(
     if isinstance(local, io.IOBase):
         # generate checksum hash for a given type
         if algorithm in hashlib.algorithms_available:
-            return hashlib.new(algorithm, local.getvalue()).hexdigest()
+            # complete contents of the file object
+            position = local.tell()
+            local.seek(0)
+            contents = local.read()
+            local.seek(position)
+            return hashlib.new(algorithm, contents).hexdigest()
         else:
             raise ValueError(f'Invalid hashing algorithm: {algorithm}')
     elif isinstance(local, (str, pathlib.Path)):
-- 
2.43.0


From 95b00316a5876c57c22ece05b13ab5a4f24e96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:55 +0000
Subject: [PATCH 092/112] fix: read csv files with lat and lon columns (the
 defaults) in the compute scripts

---
 scripts/compute_LPET_elevations.py   | 4 ++++
 scripts/compute_LPT_displacements.py | 4 ++++
 scripts/compute_OPT_displacements.py | 4 ++++
 scripts/compute_SET_displacements.py | 4 ++++
 scripts/compute_tidal_currents.py    | 4 ++++
 scripts/compute_tidal_elevations.py  | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/scripts/compute_LPET_elevations.py b/scripts/compute_LPET_elevations.py
index ecf28eb..91f5341 100644
--- a/scripts/compute_LPET_elevations.py
+++ b/scripts/compute_LPET_elevations.py
@@ -163,6 +163,10 @@ def compute_LPET_elevations(input_file, output_file,
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
+        # map geographic column names to the coordinate names
+        for key, name in dict(x='lon', y='lat').items():
+            if (key not in dinput) and (name in dinput):
+                dinput[key] = dinput[name]
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
diff --git a/scripts/compute_LPT_displacements.py b/scripts/compute_LPT_displacements.py
index 3ffc1ff..5d24826 100644
--- a/scripts/compute_LPT_displacements.py
+++ b/scripts/compute_LPT_displacements.py
@@ -187,6 +187,10 @@ def compute_LPT_displacements(input_file, output_file,
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
+        # map geographic column names to the coordinate names
+        for key, name in dict(x='lon', y='lat').items():
+            if (key not in dinput) and (name in dinput):
+                dinput[key] = dinput[name]
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
diff --git a/scripts/compute_OPT_displacements.py b/scripts/compute_OPT_displacements.py
index bcf6b89..7eb55eb 100644
--- a/scripts/compute_OPT_displacements.py
+++ b/scripts/compute_OPT_displacements.py
@@ -207,6 +207,10 @@ def compute_OPT_displacements(input_file, output_file,
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
+        # map geographic column names to the coordinate names
+        for key, name in dict(x='lon', y='lat').items():
+            if (key not in dinput) and (name in dinput):
+                dinput[key] = dinput[name]
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 2998f85..7f59ebc 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -185,6 +185,10 @@ def compute_SET_displacements(input_file, output_file,
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
+        # map geographic column names to the coordinate names
+        for key, name in dict(x='lon', y='lat').items():
+            if (key not in dinput) and (name in dinput):
+                dinput[key] = dinput[name]
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 8b00373..ac9828c 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -254,6 +254,10 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
+        # map geographic column names to the coordinate names
+        for key, name in dict(x='lon', y='lat').items():
+            if (key not in dinput) and (name in dinput):
+                dinput[key] = dinput[name]
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 7c7bd6d..bb8af19 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -262,6 +262,10 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
+        # map geographic column names to the coordinate names
+        for key, name in dict(x='lon', y='lat').items():
+            if (key not in dinput) and (name in dinput):
+                dinput[key] = dinput[name]
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
-- 
2.43.0


From 3640f38877671556299450642288b85dbd66a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:55 +0000
Subject: [PATCH 093/112] fix: solid earth tides of grids in
 compute_SET_displacements

---
 scripts/compute_SET_displacements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 7f59ebc..54ba19e 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -249,7 +249,7 @@ def compute_SET_displacements(input_file, output_file,
     units = pyTMD.datum(ellipsoid=ELLIPSOID, units='MKS')
 
     # convert input coordinates to cartesian
-    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat,
+    X, Y, Z = pyTMD.spatial.to_cartesian(np.ravel(lon), np.ravel(lat),
         a_axis=units.a_axis, flat=units.flat)
     # compute ephemerides for lunisolar coordinates
     SX, SY, SZ = pyTMD.astro.solar_ecef(ts.MJD, ephemerides=EPHEMERIDES)
@@ -280,7 +280,7 @@ def compute_SET_displacements(input_file, output_file,
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From 0c2c1c544d58cd5b66fb1e2f7edcabaecf81a28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:56 +0000
Subject: [PATCH 094/112] fix: write tides of models without a reference to
 netCDF4 and HDF5 files

---
 scripts/compute_tidal_currents.py   | 4 ++--
 scripts/compute_tidal_elevations.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index ac9828c..5089558 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -401,7 +401,7 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     # zonal tidal currents
     attrib['u'] = {}
     attrib['u']['description'] = model.description['u']
-    attrib['u']['reference'] = model.reference
+    attrib['u']['reference'] = model.reference or ''
     attrib['u']['model'] = model.name
     attrib['u']['units'] = 'cm/s'
     attrib['u']['long_name'] = model.long_name['u']
@@ -409,7 +409,7 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     # meridional tidal currents
     attrib['v'] = {}
     attrib['v']['description'] = model.description['v']
-    attrib['v']['reference'] =  model.reference
+    attrib['v']['reference'] = model.reference or ''
     attrib['v']['model'] = model.name
     attrib['v']['units'] = 'cm/s'
     attrib['v']['long_name'] = model.long_name['v']
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index bb8af19..25ae75d 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -407,7 +407,7 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     output_variable = model.variable
     attrib[output_variable] = {}
     attrib[output_variable]['description'] = model.description
-    attrib[output_variable]['reference'] = model.reference
+    attrib[output_variable]['reference'] = model.reference or ''
     attrib[output_variable]['model'] = model.name
     attrib[output_variable]['units'] = 'meters'
     attrib[output_variable]['long_name'] = model.long_name
-- 
2.43.0


From a2f77b0c86bde74ac78d2bbda2d9f3f86bc06d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 095/112] fix: spherical harmonics are orthonormal (no
 additional sine of colatitude)

---
 pyTMD/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/math.py b/pyTMD/math.py
index 3967821..19b610f 100644
--- a/pyTMD/math.py
+++ b/pyTMD/math.py
@@ -280,7 +280,7 @@ def sph_harm(
     Plm = norm*legendre(l, np.cos(theta), m=m)
     # spherical harmonics of degree l and order m
     dfactor = np.sqrt((2.0*l + 1.0)/(4.0*np.pi))
-    Ylm = dfactor*Plm*np.sin(theta)*np.exp(1j*m*phi)
+    Ylm = dfactor*Plm*np.exp(1j*m*phi)
     # return values
     if singular_values:
         return Ylm[0]
-- 
2.43.0


From d7c7bb221ab9e40d8655603ed9e6f5f24985ba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:55 +0000
Subject: [PATCH 096/112] fix: equation of the equinoxes in apparent sidereal
 time is an angle in radians

---
 pyTMD/astro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 41369f8..1545237 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -661,7 +661,8 @@ def gast(T: float | np.ndarray):
     # traditional equation of the equinoxes
     c = _eqeq_complement(T)
     eqeq = dpsi*np.cos(epsilon + deps) + c
-    return np.mod(ts.st + eqeq/24.0, 1.0)
+    # convert the equation of the equinoxes from radians to fractions of a day
+    return np.mod(ts.st + eqeq/ts.tau, 1.0)
 
 def itrs(T: float | np.ndarray):
     """
-- 
2.43.0


From 7a618b39138c25e2d720a10ac945a6ddd45ca0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:55 +0000
Subject: [PATCH 097/112] fix: order of the rotations and sense of polar motion
 in the celestial to terrestrial transformation

---
 pyTMD/astro.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 1545237..aaece46 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -695,12 +695,13 @@ def itrs(T: float | np.ndarray):
     # M1: precession
     # M2: nutation
     # M3: frame bias
-    # M4: polar motion
-    M = np.einsum('ijt...,jkt...,kl...,lmt...->imt...', M1, M2, M3, M4)
+    # (celestial to true equator and equinox of date)
+    M = np.einsum('ijt...,jkt...,kl...->ilt...', M2, M1, M3)
     # compute the Greenwich Apparent Sidereal Time
     # use UT1 time as input to gast function
     GAST = rotate(ts.tau*gast(T), 'z')
-    R = np.einsum('ijt...,jkt->ikt...', GAST, M)
+    # M4: polar motion (of the rotated axes)
+    R = np.einsum('ijt...,jkt...,klt...->ilt...', M4, GAST, M)
     # return the combined rotation matrix
     return R
 
@@ -884,9 +885,9 @@ def _polar_motion_matrix(T: float | np.ndarray):
     sprime = -4.7e-5*T
     px, py = timescale.eop.iers_polar_motion(MJD)
     # calculate the rotation matrices
-    M1 = rotate(py*atr,'x')
-    M2 = rotate(px*atr,'y')
-    M3 = rotate(-sprime*atr,'z')
+    M1 = rotate(-py*atr,'x')
+    M2 = rotate(-px*atr,'y')
+    M3 = rotate(sprime*atr,'z')
     # calculate the combined rotation matrix
     return np.einsum('ij...,jk...,kl...->il...', M1, M2, M3)
 
-- 
2.43.0


From fdc717b018ed57da30aa3ed862011b07bbe28adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:55 +0000
Subject: [PATCH 098/112] fix: ephemerides are rotated to the Earth at their
 own instant (UT1-UTC was added twice)

---
 pyTMD/astro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index aaece46..e520dee 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -482,7 +482,7 @@ def solar_ephemerides(MJD: np.ndarray, **kwargs):
     x, y, z = 1e3*(SSB_to_Sun.compute(ts.tt) - SSB_to_EMB.compute(ts.tt) -
         EMB_to_Earth.compute(ts.tt))
     # rotate to cartesian (ECEF) coordinates
-    rot_z = itrs((ts.ut1 - _jd_j2000)/ts.century)
+    rot_z = itrs((ts.MJD - _mjd_j2000)/ts.century)
     X = rot_z[0,0,:]*x + rot_z[0,1,:]*y + rot_z[0,2,:]*z
     Y = rot_z[1,0,:]*x + rot_z[1,1,:]*y + rot_z[1,2,:]*z
     Z = rot_z[2,0,:]*x + rot_z[2,1,:]*y + rot_z[2,2,:]*z
@@ -634,7 +634,7 @@ def lunar_ephemerides(MJD: np.ndarray, **kwargs):
     x, y, z = 1e3*(EMB_to_Moon.compute(ts.tt) - EMB_to_Earth.compute(ts.tt))
     # rotate to cartesian (ECEF) coordinates
     # use UT1 time as input to itrs rotation function
-    rot_z = itrs((ts.ut1 - _jd_j2000)/ts.century)
+    rot_z = itrs((ts.MJD - _mjd_j2000)/ts.century)
     X = rot_z[0,0,:]*x + rot_z[0,1,:]*y + rot_z[0,2,:]*z
     Y = rot_z[1,0,:]*x + rot_z[1,1,:]*y + rot_z[1,2,:]*z
     Z = rot_z[2,0,:]*x + rot_z[2,1,:]*y + rot_z[2,2,:]*z
-- 
2.43.0


From 4ed5da3d08855eb791a62bcea08a6ccd08c63975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:36 +0000
Subject: [PATCH 099/112] fix: gsfc_got_tides skipped files with names such as
 a_notes.txt

---
 scripts/gsfc_got_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 72b42b6..6d31a98 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -101,9 +101,9 @@ def gsfc_got_tides(MODEL: str,
             continue
         elif (sfx == '.d') and (FORMAT == 'netcdf'):
             continue
-        elif re.match(r'^.DS', posixpath.basename(m.name)):
+        elif re.match(r'^\.DS', posixpath.basename(m.name)):
             continue
-        elif re.match(r'^._', posixpath.basename(m.name)):
+        elif re.match(r'^\._', posixpath.basename(m.name)):
             continue
         # output file name
         output = f'{m.name}.gz' if sfx in ('.d','.nc') and GZIP else m.name
-- 
2.43.0


From 5a70621fde446e71cfa38f55f5380f81b8c08f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:36 +0000
Subject: [PATCH 100/112] fix: aviso_fes_tides --currents did not fetch the
 velocities of FES2014

---
 scripts/aviso_fes_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 41f6933..3dc80d2 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -206,8 +206,8 @@ def aviso_fes_tar(MODEL, f, logger,
         FES['FES2014'].append([subdir,'readme_fes2014_currents_v1.2.txt'])
         FES['FES2014'].append([subdir,'eastward_velocity.tar.xz'])
         FES['FES2014'].append([subdir,'northward_velocity.tar.xz'])
-        TAR['FES2014'].extend(['r'])
-        FLATTEN['FES2014'].extend([False])
+        TAR['FES2014'].extend([None,'r','r'])
+        FLATTEN['FES2014'].extend([None,False,False])
 
     # for each file for a model
     for remotepath,tarmode,flatten in zip(FES[MODEL],TAR[MODEL],FLATTEN[MODEL]):
-- 
2.43.0


From 942e1075977a385c7d82dadfb029416a47121e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:49 +0000
Subject: [PATCH 101/112] fix: --gzip compressed files of other types under
 their uncompressed names

---
 scripts/aviso_fes_tides.py | 14 +++++++++-----
 scripts/gsfc_got_tides.py  |  6 +++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 3dc80d2..72bf012 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -289,8 +289,6 @@ def ftp_download(logger, ftp, remote_path, local_dir,
     ):
     # remote and local directory for data product
     remote_file = posixpath.join('auxiliary','tide_model',*remote_path)
-    # if compressing the output file
-    opener = gzip.open if GZIP else open
 
     # Printing files transferred
     remote_ftp_url = posixpath.join('ftp://', ftp.host, remote_file)
@@ -308,7 +306,9 @@ def ftp_download(logger, ftp, remote_path, local_dir,
             member = posixpath.basename(m.name) if FLATTEN else m.name
             base, sfx = posixpath.splitext(m.name)
             # extract file contents to new file
-            output = f'{member}.gz' if sfx in ('.asc','.nc') and GZIP else member
+            compress = sfx in ('.asc','.nc') and GZIP
+            output = f'{member}.gz' if compress else member
+            opener = gzip.open if compress else open
             local_file = local_dir.joinpath(*posixpath.split(output))
             # check if the local file exists
             if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
@@ -334,7 +334,9 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         stem = posixpath.basename(posixpath.splitext(remote_file)[0])
         base, sfx = posixpath.splitext(stem)
         # extract file contents to new file
-        output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        compress = sfx in ('.asc','.nc') and GZIP
+        output = f'{stem}.gz' if compress else stem
+        opener = gzip.open if compress else open
         local_file = local_dir.joinpath(output)
         # check if the local file exists
         if local_file.exists() and newer(mtime,local_file.stat().st_mtime):
@@ -361,7 +363,9 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         stem = posixpath.basename(remote_file)
         base, sfx = posixpath.splitext(stem)
         # output file name for compressed and uncompressed cases
-        output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        compress = sfx in ('.asc','.nc') and GZIP
+        output = f'{stem}.gz' if compress else stem
+        opener = gzip.open if compress else open
         local_file = local_dir.joinpath(output)
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 6d31a98..e6de03e 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -60,8 +60,6 @@ def gsfc_got_tides(MODEL: str,
 
     # create logger for verbosity level
     logger = pyTMD.utilities.build_logger(__name__,level=logging.INFO)
-    # if compressing the output files
-    opener = gzip.open if GZIP else open
 
     # url for each tide model tarfile
     PATH = {}
@@ -106,7 +104,8 @@ def gsfc_got_tides(MODEL: str,
         elif re.match(r'^\._', posixpath.basename(m.name)):
             continue
         # output file name
-        output = f'{m.name}.gz' if sfx in ('.d','.nc') and GZIP else m.name
+        compress = sfx in ('.d','.nc') and GZIP
+        output = f'{m.name}.gz' if compress else m.name
         local_file = DIRECTORY.joinpath(*posixpath.split(output))
         # check if the local file exists
         if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
@@ -118,6 +117,7 @@ def gsfc_got_tides(MODEL: str,
         # recursively create output directory if non-existent
         local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
         # extract file to local directory
+        opener = gzip.open if compress else open
         with tar.extractfile(m) as fi,opener(local_file, 'wb') as fo:
             shutil.copyfileobj(fi, fo)
         # get last modified date of remote file within tar file
-- 
2.43.0


From 65dbef626039bc8e952120ec0058a9654e67eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 102/112] fix: interrupted fetches left partial files which
 later runs took for current

---
 scripts/aviso_fes_tides.py | 35 ++++++++++++++++-------------------
 scripts/gsfc_got_tides.py  | 13 +++++--------
 2 files changed, 21 insertions(+), 27 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 72bf012..c7cdc66 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -69,7 +69,6 @@ import re
 import gzip
 import lzma
 import netrc
-import shutil
 import logging
 import tarfile
 import getpass
@@ -308,7 +307,6 @@ def ftp_download(logger, ftp, remote_path, local_dir,
             # extract file contents to new file
             compress = sfx in ('.asc','.nc') and GZIP
             output = f'{member}.gz' if compress else member
-            opener = gzip.open if compress else open
             local_file = local_dir.joinpath(*posixpath.split(output))
             # check if the local file exists
             if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
@@ -320,12 +318,11 @@ def ftp_download(logger, ftp, remote_path, local_dir,
             # recursively create output directory if non-existent
             local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
             # extract file to local directory
-            with tar.extractfile(m) as fi,opener(local_file, 'wb') as fo:
-                shutil.copyfileobj(fi, fo)
-            # get last modified date of remote file within tar file
             # keep remote modification time of file and local access time
-            os.utime(local_file, (local_file.stat().st_atime, m.mtime))
-            local_file.chmod(mode=MODE)
+            with tar.extractfile(m) as fi:
+                fo = io.BytesIO(gzip.compress(fi.read())) if compress else fi
+                pyTMD.utilities._store_buffer(fo, local_file,
+                    mode=MODE, mtime=m.mtime)
     elif LZMA:
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
@@ -336,7 +333,6 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         # extract file contents to new file
         compress = sfx in ('.asc','.nc') and GZIP
         output = f'{stem}.gz' if compress else stem
-        opener = gzip.open if compress else open
         local_file = local_dir.joinpath(output)
         # check if the local file exists
         if local_file.exists() and newer(mtime,local_file.stat().st_mtime):
@@ -352,12 +348,11 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         ftp.retrbinary(f'RETR {remote_file}', fileobj.write, blocksize=CHUNK)
         fileobj.seek(0)
         # decompress lzma file and extract contents to local directory
-        with lzma.open(fileobj) as fi,opener(local_file, 'wb') as fo:
-            shutil.copyfileobj(fi, fo)
-        # get last modified date of remote file within tar file
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, mtime))
-        local_file.chmod(mode=MODE)
+        with lzma.open(fileobj) as fi:
+            fo = io.BytesIO(gzip.compress(fi.read())) if compress else fi
+            pyTMD.utilities._store_buffer(fo, local_file,
+                mode=MODE, mtime=mtime)
     else:
         # copy readme and uncompressed files directly
         stem = posixpath.basename(remote_file)
@@ -365,7 +360,6 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         # output file name for compressed and uncompressed cases
         compress = sfx in ('.asc','.nc') and GZIP
         output = f'{stem}.gz' if compress else stem
-        opener = gzip.open if compress else open
         local_file = local_dir.joinpath(output)
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
@@ -379,12 +373,15 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         logger.info(f'\t{str(local_file)}\n')
         # recursively create output directory if non-existent
         local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
-        # copy remote file contents to local file
-        with opener(local_file, 'wb') as f:
-            ftp.retrbinary(f'RETR {remote_file}', f.write, blocksize=CHUNK)
+        # copy remote file contents to bytesIO object
+        fileobj = io.BytesIO()
+        ftp.retrbinary(f'RETR {remote_file}', fileobj.write, blocksize=CHUNK)
+        if compress:
+            fileobj = io.BytesIO(gzip.compress(fileobj.getvalue()))
+        # copy contents to local file
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, mtime))
-        local_file.chmod(mode=MODE)
+        pyTMD.utilities._store_buffer(fileobj, local_file,
+            mode=MODE, mtime=mtime)
 
 # PURPOSE: compare the modification time of two files
 def newer(t1: int, t2: int) -> bool:
diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index e6de03e..99f6887 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -39,10 +39,9 @@ UPDATE HISTORY:
 """
 from __future__ import print_function, annotations
 
-import os
+import io
 import re
 import gzip
-import shutil
 import logging
 import pathlib
 import tarfile
@@ -117,13 +116,11 @@ def gsfc_got_tides(MODEL: str,
         # recursively create output directory if non-existent
         local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
         # extract file to local directory
-        opener = gzip.open if compress else open
-        with tar.extractfile(m) as fi,opener(local_file, 'wb') as fo:
-            shutil.copyfileobj(fi, fo)
-        # get last modified date of remote file within tar file
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, m.mtime))
-        local_file.chmod(mode=MODE)
+        with tar.extractfile(m) as fi:
+            fo = io.BytesIO(gzip.compress(fi.read())) if compress else fi
+            pyTMD.utilities._store_buffer(fo, local_file,
+                mode=MODE, mtime=m.mtime)
 
 # PURPOSE: compare the modification time of two files
 def newer(t1: int, t2: int) -> bool:
-- 
2.43.0


From f4be2092391df272470b830176aaf7e149e91af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 103/112] fix: members of archives could be extracted outside
 of the directory

---
 scripts/aviso_fes_tides.py | 3 +++
 scripts/gsfc_got_tides.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index c7cdc66..3e0cfc8 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -308,6 +308,9 @@ def ftp_download(logger, ftp, remote_path, local_dir,
             compress = sfx in ('.asc','.nc') and GZIP
             output = f'{member}.gz' if compress else member
             local_file = local_dir.joinpath(*posixpath.split(output))
+            # skip members with paths outside of the local directory
+            if not local_file.resolve().is_relative_to(local_dir.resolve()):
+                continue
             # check if the local file exists
             if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
                 # check the modification time of the local file
diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 99f6887..81cdd3b 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -106,6 +106,9 @@ def gsfc_got_tides(MODEL: str,
         compress = sfx in ('.d','.nc') and GZIP
         output = f'{m.name}.gz' if compress else m.name
         local_file = DIRECTORY.joinpath(*posixpath.split(output))
+        # skip members with paths outside of the local directory
+        if not local_file.resolve().is_relative_to(DIRECTORY.resolve()):
+            continue
         # check if the local file exists
         if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
             # check the modification time of the local file
-- 
2.43.0


From 42613c44ea316f2f7ff295d341316502058d1a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 104/112] fix: aviso_fes_tides failed if the netrc file has no
 entry for the host

---
 scripts/aviso_fes_tides.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 3e0cfc8..1d12050 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -462,13 +462,13 @@ def main():
     # AVISO FTP Server hostname
     HOST = 'ftp-access.aviso.altimetry.fr'
     # get authentication
-    if not args.user and not args.netrc.exists():
+    if args.netrc.exists() and netrc.netrc(args.netrc).authenticators(HOST):
+        args.user,_,args.password = netrc.netrc(args.netrc).authenticators(HOST)
+    elif not args.user:
         # check that AVISO credentials were entered
         args.user = builtins.input(f'Username for {HOST}: ')
         # enter password securely from command-line
         args.password = getpass.getpass(f'Password for {args.user}@{HOST}: ')
-    elif args.netrc.exists():
-        args.user,_,args.password = netrc.netrc(args.netrc).authenticators(HOST)
     elif args.user and not args.password:
         # enter password securely from command-line
         args.password = getpass.getpass(f'Password for {args.user}@{HOST}: ')
-- 
2.43.0


From fc60a2015d61e10e1df875fd0286e601089d848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 105/112] fix: aviso_fes_tides logs of several models and in
 new directories

---
 scripts/aviso_fes_tides.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 1d12050..3acb49e 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -102,8 +102,10 @@ def aviso_fes_tides(MODEL: str,
     if LOG:
         # format: AVISO_FES_tides_2002-04-01.log
         today = time.strftime('%Y-%m-%d',time.localtime())
+        DIRECTORY = pathlib.Path(DIRECTORY).expanduser().absolute()
+        DIRECTORY.mkdir(MODE, parents=True, exist_ok=True)
         LOGFILE = DIRECTORY.joinpath(f'AVISO_FES_tides_{today}.log')
-        fid = LOGFILE.open(mode='w', encoding='utf8')
+        fid = LOGFILE.open(mode='a', encoding='utf8')
         logger = pyTMD.utilities.build_logger(__name__,stream=fid,
             level=logging.INFO)
         logger.info(f'AVISO FES Sync Log ({today})')
-- 
2.43.0


From 0419b669249da250a46d2349c61f9c65b9b868ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 106/112] fix: unix times of formatted dates with a time zone

---
 pyTMD/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index e9e9a0d..e2865b8 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -408,7 +408,8 @@ def get_unix_time(
     except (TypeError, ValueError):
         pass
     else:
-        return calendar.timegm(parsed_time)
+        # convert from time zone of string (if provided)
+        return calendar.timegm(parsed_time) - (parsed_time.tm_gmtoff or 0)
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-- 
2.43.0


From d4c6198b4ac2ba19bf31a66b273177c6b2131c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:49 +0000
Subject: [PATCH 107/112] fix: interrupted extractions of arcticdata_tides left
 partial files

---
 scripts/arcticdata_tides.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/scripts/arcticdata_tides.py b/scripts/arcticdata_tides.py
index baa8a35..c3c997d 100644
--- a/scripts/arcticdata_tides.py
+++ b/scripts/arcticdata_tides.py
@@ -96,13 +96,11 @@ def arcticdata_tides(MODEL: str,
     # extract each member
     for m in members:
         # strip directories from member filename
-        m.filename = posixpath.basename(m.filename)
-        local_file = local_dir.joinpath(m.filename)
+        local_file = local_dir.joinpath(posixpath.basename(m.filename))
         logger.info(str(local_file))
         # extract file
-        zfile.extract(m, path=local_dir)
-        # change permissions mode
-        local_file.chmod(mode=MODE)
+        with zfile.open(m) as fi:
+            pyTMD.utilities._store_buffer(fi, local_file, mode=MODE)
     # close the zipfile object
     zfile.close()
 
-- 
2.43.0


From 0f7d4e6e8fe9a4daf5b1141853ba2f6ef77e9fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:49 +0000
Subject: [PATCH 108/112] fix: arcticdata_tides failed for archives with
 entries for directories

---
 scripts/arcticdata_tides.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/arcticdata_tides.py b/scripts/arcticdata_tides.py
index c3c997d..06b9eb6 100644
--- a/scripts/arcticdata_tides.py
+++ b/scripts/arcticdata_tides.py
@@ -92,7 +92,8 @@ def arcticdata_tides(MODEL: str,
     zfile = zipfile.ZipFile(pyTMD.utilities.from_http(HOST, timeout=TIMEOUT))
     # find model files within zip file
     rx = re.compile(r'(grid|h[0]?|UV[0]?|Model|xy)_(.*?)',re.VERBOSE)
-    members = [m for m in zfile.filelist if rx.search(m.filename)]
+    members = [m for m in zfile.filelist if rx.search(m.filename)
+        and not m.is_dir()]
     # extract each member
     for m in members:
         # strip directories from member filename
-- 
2.43.0


From a7a0ccfd7c915d61f17da2034ed85eabddb6a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 109/112] fix: FES minor arguments: longitude of the lunar
 perigee in radians for L2

---
 pyTMD/arguments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 8e9bb47..112fdd2 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -280,9 +280,9 @@ def minor_arguments(
         xi = np.arctan2(np.sin(xi), np.cos(xi))
         nu = at1 - at2
         I2 = np.tan(II/2.0)
-        Ra1 = np.sqrt(1.0 - 12.0*(I2**2)*np.cos(2.0*(p - xi)) + 36.0*(I2**4))
-        P2 = np.sin(2.0*(p - xi))
-        Q2 = 1.0/(6.0*(I2**2)) - np.cos(2.0*(p - xi))
+        Ra1 = np.sqrt(1.0 - 12.0*(I2**2)*np.cos(2.0*(p*dtr - xi)) + 36.0*(I2**4))
+        P2 = np.sin(2.0*(p*dtr - xi))
+        Q2 = 1.0/(6.0*(I2**2)) - np.cos(2.0*(p*dtr - xi))
         R = np.arctan(P2/Q2)
 
         # nodal factor corrections for minor constituents
-- 
2.43.0


From 26a202ac076abd03b1ced7cd3591f7acd0dbc1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:33 +0000
Subject: [PATCH 110/112] fix: lunar longitude: sign of the term in the
 anomalies of Moon and Sun

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index e520dee..a79f64e 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -563,7 +563,7 @@ def lunar_approximate(MJD, **kwargs):
         4586.0*np.sin(l - 2.0*D) + 2370.0*np.sin(2.0*D) -
         668.0*np.sin(M) - 412.0*np.sin(2.0*F) -
         212.0*np.sin(2.0*l - 2.0*D) - 206.0*np.sin(l + M - 2.0*D) +
-        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) -
+        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) +
         148.0*np.sin(l - M) - 125.0*np.sin(D) -
         110.0*np.sin(l + M) - 55.0*np.sin(2.0*F - 2.0*D)
     )
-- 
2.43.0


From 58cb5cba170136fd18bff93e9380393881cfb283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:25 +0000
Subject: [PATCH 111/112] fix: bounds of geotiff: read every pixel they touch,
 within the image

---
 pyTMD/spatial.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index a5e6c9e..fe08528 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -645,11 +645,16 @@ def from_geotiff(filename: str, **kwargs):
         # reduced x and y limits
         xlimits = (kwargs['bounds'][0], kwargs['bounds'][1])
         ylimits = (kwargs['bounds'][2], kwargs['bounds'][3])
-        # Specify offset and rows and columns to read
-        xoffset = int((xlimits[0] - xmin)/info_geotiff[1])
-        yoffset = int((ymax - ylimits[1])/np.abs(info_geotiff[5]))
-        xcount = int((xlimits[1] - xlimits[0])/info_geotiff[1]) + 1
-        ycount = int((ylimits[1] - ylimits[0])/np.abs(info_geotiff[5])) + 1
+        # columns and rows of the pixels that contain the limits
+        columns = np.round((np.array(xlimits) - xmin)/info_geotiff[1], 6)
+        rows = np.round((ymax - np.array(ylimits))/np.abs(info_geotiff[5]), 6)
+        # Specify offset and rows and columns to read (within the image)
+        xoffset = max(int(np.floor(columns[0])), 0)
+        yoffset = max(int(np.floor(rows[1])), 0)
+        xcount = min(int(np.floor(columns[1])), xsize - 1) - xoffset + 1
+        ycount = min(int(np.floor(rows[0])), ysize - 1) - yoffset + 1
+        if (xcount < 1) or (ycount < 1):
+            raise ValueError('Bounds are outside of the image extent')
         # reduced x and y pixel center coordinates
         dinput['x'] = x[slice(xoffset, xoffset + xcount, None)]
         dinput['y'] = y[slice(yoffset, yoffset + ycount, None)]
-- 
2.43.0


From 7a76d08ebd2943f9f80cc9430598d258edebefe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:58 +0000
Subject: [PATCH 112/112] fix: Earthdata login: use of the environment, and of
 the answers to each question

---
 pyTMD/utilities.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index e2865b8..e403eaa 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -1033,8 +1033,8 @@ def attempt_login(
         OpenerDirector instance
     """
     # set default keyword arguments
-    kwargs.setdefault('username', os.environ.get('EARTHDATA_USERNAME'))
-    kwargs.setdefault('password', os.environ.get('EARTHDATA_PASSWORD'))
+    kwargs.setdefault('username', None)
+    kwargs.setdefault('password', None)
     kwargs.setdefault('retries', 5)
     kwargs.setdefault('netrc', os.path.expanduser('~/.netrc'))
     try:
@@ -1044,8 +1044,8 @@ def attempt_login(
         username, _, password = netrc.netrc(kwargs['netrc']).authenticators(urs)
     except Exception as exc:
         # try retrieving credentials from environmental variables
-        username, password = (kwargs['username'], kwargs['password'])
-        pass
+        username = kwargs['username'] or os.environ.get('EARTHDATA_USERNAME')
+        password = kwargs['password'] or os.environ.get('EARTHDATA_PASSWORD')
     # if username or password are not available
     if not username:
         username = builtins.input(f'Username for {urs}: ')
@@ -1054,6 +1054,11 @@ def attempt_login(
         password = getpass.getpass(prompt=prompt)
     # for each retry
     for retry in range(kwargs['retries']):
+        # reattempt login with different credentials
+        if (retry > 0):
+            username = builtins.input(f'Username for {urs}: ')
+            prompt = f'Password for {username}@{urs}: '
+            password = getpass.getpass(prompt=prompt)
         # build an opener for urs with credentials
         opener = build_opener(username, password,
             context=context,
@@ -1069,9 +1074,6 @@ def attempt_login(
             pass
         else:
             return opener
-        # reattempt login
-        username = builtins.input(f'Username for {urs}: ')
-        password = getpass.getpass(prompt=prompt)
     # reached end of available retries
     raise RuntimeError('End of Retries: Check NASA Earthdata credentials')
 
-- 
2.43.0

