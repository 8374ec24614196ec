From c33259add91ee8467862c53f028fadf646dac490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 001/134] fix: rfRLC uses the removed numpy alias np.complex at
 f=0

---
 src/pyRFtk/rfRLC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 46d83db..62dce21 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -223,7 +223,7 @@ class rfRLC():
                         self.S = np.array(
                             [[ (self.Rs-Zbase)/(self.Rs + Zbase) , 0j ],
                              [               0j                  , -1 ]],
-                            dtype=np.complex)                   
+                            dtype=complex)                   
                 else:
                     if self.Lp == +np.inf:
                         # (s) -- OO --+-- (p)
@@ -237,12 +237,12 @@ class rfRLC():
                             rcp = +1
                         self.S = np.array(
                             [[1, 0j],[0j, rcp ]],
-                            dtype=np.complex)
+                            dtype=complex)
                     else:
                         # (s) -- OO --+-- (p)
                         #             |
                         #            Gnd
-                        self.S = np.array([[1, 0j], [0j, -1]], dtype=np.complex)
+                        self.S = np.array([[1, 0j], [0j, -1]], dtype=complex)
             return self.S
         
         Ss = []
-- 
2.43.0


From 8f61c43eafd8a6226bfafa947289a633ae04dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 002/134] fix: rfRLC does not normalise Rs and Rp to Zbase at
 f=0

---
 src/pyRFtk/rfRLC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 62dce21..96675e4 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -202,14 +202,14 @@ class rfRLC():
                              [  1 - zs ,  -1   ]])
             else:
                 if self.Cs == +np.inf:
-                    zs = self.Rs
+                    zs = self.Rs/Zbase
                     if self.Lp == +np.inf:
                         # (s) -- Rs --+-- (p)
                         #             |
                         #             Rp
                         #             |
                         #            Gnd
-                        yp = 1/self.Rp
+                        yp = Zbase/self.Rp
                         self.S = np.linalg.inv(
                                 [[     1   , 1 + yp],
                                  [-(1 + zs),   1   ]]
-- 
2.43.0


From 14af46f0ad13dc1f5e4ec1c4044574d2d4a39291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 003/134] fix: len() of an rfRLC fails after set()

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 96675e4..2f5cd02 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -147,7 +147,7 @@ class rfRLC():
     # _ _ l e n _ _
     #
     def __len__(self):
-        return len(self.S)
+        return len(self.ports)
     
     #===========================================================================
     #
-- 
2.43.0


From 1b468150487112d0af4172297623bf5267d21fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 004/134] fix: rfRLC.getS empties the caller's params dict

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 2f5cd02..7b09b6b 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -184,7 +184,7 @@ class rfRLC():
             Zbase = self.Zbase
         
         for p in ['Rs','Ls','Cs','Rp','Lp','Cp']:
-            setattr(self, p, params.pop(p, getattr(self, p)))
+            setattr(self, p, params.get(p, getattr(self, p)))
             
         def get1S(f):
             self.f = f
-- 
2.43.0


From 9dc527be726a4237b7a8bc3b6d5389e8ed82f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 005/134] fix: ConvertGeneral drops all but the first item of a
 1-D list

---
 src/pyRFtk/ConvertGeneral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ConvertGeneral.py b/src/pyRFtk/ConvertGeneral.py
index 7c22530..0af2db7 100644
--- a/src/pyRFtk/ConvertGeneral.py
+++ b/src/pyRFtk/ConvertGeneral.py
@@ -132,7 +132,7 @@ def ConvertGeneral(Z2, S1, Z1, type1='V', type2='V'):
     
     elif L == 1:
         _debug_ and logident('< L==1')
-        return [S2[0,0,0]]
+        return S2[:,0,0]
     
     elif L == 2:
         _debug_ and logident('< L==2')
-- 
2.43.0


From f52ba189379774cb63e9f18bdda27f271909c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 006/134] fix: S_from_Y imports a module where it needs a
 function and indexes a list

---
 src/pyRFtk/S_from_Y.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/S_from_Y.py b/src/pyRFtk/S_from_Y.py
index e93a873..66fd44e 100644
--- a/src/pyRFtk/S_from_Y.py
+++ b/src/pyRFtk/S_from_Y.py
@@ -1,7 +1,7 @@
 __updated__ = "2020-12-18 17:56:43"
 
 import numpy as np
-from . import _check_3D_shape_
+from ._check_3D_shape_ import _check_3D_shape_
 
 #===============================================================================
 #
@@ -17,7 +17,7 @@ def S_from_Y(Y, Zbase=50.):
     L, Y = _check_3D_shape_(Y)
     
     Y0 = np.eye(Y.shape[1])/Zbase
-    S = [ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y]
+    S = np.array([ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y])
     
     S = S[0,0,0] if L == 0 else S[:,0,0] if L == 1 else S[0,:,:] if L==2 else S 
     
-- 
2.43.0


From 5fe3f8640a615fdaed695c9272671db94b956175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 007/134] fix: rfBase.tsf2str calls modules instead of Z_from_S
 and Y_from_S

---
 src/pyRFtk/rfBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index e6367b0..fe8ba6c 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -19,7 +19,8 @@ from .config import logident, logit, _newID
 from .whoami import whoami
 from .printMatrices import strM
 from .ConvertGeneral import ConvertGeneral
-from . import Z_from_S, Y_from_S
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
 from ._check_3D_shape_ import _check_3D_shape_
         
 #===============================================================================
-- 
2.43.0


From b356f2e992275d6bf8018da3a202e920a12df79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 008/134] fix: tsf2str fails or mislabels its data when tfmt
 omits the unit, the number format or R

---
 src/pyRFtk/rfBase.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index fe8ba6c..4dfb9d9 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -322,7 +322,7 @@ class rfBase():
             raise TypeError(f'{whoami(__package__)}: ' # @UndefinedVariable
                             f'Unknown kwargs {", ".join([kw for kw in kwargs])}') 
                     
-        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', 50.0, 1.0, 'MHZ'
+        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', None, 1e9, 'GHZ'
         fscales = {'HZ': 1, 'KHZ':1e3, 'MHZ':1e6, 'GHZ':1e9}
         elstrs = {
             'RI': lambda z: '  %11.8f %11.8f' % (z.real, z.imag),
@@ -331,9 +331,9 @@ class rfBase():
                                                  np.angle(z,deg=1)),
         }
         
-        fmts = tfmt.upper().split()
-        if fmts[0] == '#':
-            fmts = fmts[1:]
+        elstr = elstrs[elmfmt]
+        
+        fmts = tfmt.upper().lstrip('# ').split()
             
         last = ''
         for k, tk in enumerate(fmts):
@@ -358,6 +358,12 @@ class rfBase():
                 raise ValueError(f'{whoami(__package__)}: '  # @UndefinedVariable
                                  f'unknown touchstone format directive {tk}')
             last = tk
+        
+        if Zref is None:
+            Zref = Zbase
+            fmts += ['R', f'{Zref}']
+        
+        tfmt = '# ' + ' '.join(fmts)
             
 
         eoln = '\n'
-- 
2.43.0


From cd123e7c083b5c3e342aa4ee1afee5b593638eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 009/134] fix: tsf2str may write frequencies with too few
 decimals

---
 src/pyRFtk/rfBase.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 4dfb9d9..5d74f3b 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -399,22 +399,12 @@ class rfBase():
         freq_fmt_len = 10
         
         if True:
-            # find the optimal frequency format that is able to represent the
-            # smallest frequency step as well as the maximun frequency
+            # find the shortest frequency format that is able to represent all
+            # frequencies
             
-            if len(Fs) > 1:
-                for df in list(set(sorted(np.diff(Fs)))):
-                    if df > 0.:
-                        break
-            else:
-                df = Fs[0]
-            
-            m0, dm = 15, 3
-            m = m0
-            df0 = round(df,m)
-            while m >= 0 and df0 == round(df,m):
-                m -= dm
-            m += dm
+            for m in range(0, 16, 3):
+                if np.allclose(np.round(Fs, m), Fs, rtol=1e-13, atol=0.):
+                    break
             freq_frac = '.%df' % m
             n = len(('%'+freq_frac) % np.max(Fs))
             freq_fmt = ('%%%d' % n) + freq_frac + ' '
-- 
2.43.0


From bf6c6dd31ce7add4ab58e8b631740ab74b11df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 010/134] fix: ReadTSF fails when the option line has no R

---
 src/pyRFtk/ReadTSF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 80b2731..220baef 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -378,7 +378,9 @@ def ReadTSF(src, **kwargs):
                 err = []
     
     else: # this should be the case when no Zcs or gammas are present
-        nZbase = len(Zlist)
+        # the touchstone default when R is missing is 50 Ohm
+        Zbase = 50. if Zbase is None else Zbase
+        nZbase = len(Zbase) if hasattr(Zbase, '__iter__') else 1
                 
         
     # if the data type is Z or Y we need to convert to S
-- 
2.43.0


From d6551430a391cd2ea4fc7a74123b8003822ddfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 011/134] fix: ReadTSF fails on a !SHAPE comment with a single
 number

---
 src/pyRFtk/ReadTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 220baef..dd46d98 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -170,7 +170,7 @@ def ReadTSF(src, **kwargs):
         if len(tlist) > 0:
             shape = tuple([int(x) for x in tlist[0].split()[:2]])
             if len(shape) == 1:
-                shape.append(0)
+                shape += (0,)
             
         tlist = re.findall('!PART (.+)',aline)
         if len(tlist) > 0:
-- 
2.43.0


From e93b989e10b1b7ec00cb9d4dbeceb200783009eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 012/134] fix: ReadTSF tests the wrong variable for a
 !NUMBERING comment

---
 src/pyRFtk/ReadTSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index dd46d98..d64f76d 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -181,8 +181,8 @@ def ReadTSF(src, **kwargs):
         tlist = re.findall('!NUMBERING (.+)',aline)
         if len(tlist) > 0:
             numbering = tuple([x.lower() for x in tlist[0].split()[:2]])
-            if len(shape) < 2:
-                shape = shape[0] # so numbering becomes type str rather than tuple
+            if len(numbering) < 2:
+                numbering = numbering[0] # so numbering becomes type str rather than tuple
             
         
     # detect the source of the touchstone
-- 
2.43.0


From 4431ec675c7ddab9bb15dfd3a28adccdb08e72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 013/134] fix: ReadTSF fails at log level DEBUG when comments
 are supplied

---
 src/pyRFtk/ReadTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index d64f76d..eae2741 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -49,7 +49,7 @@ def ReadTSF(src, **kwargs):
         tLogger.debug(ident(f'funit  = {Tfunit}'))
         tLogger.debug(ident(f'Tports = {Tports}'))
         
-        for k, cmt in Tcomments:
+        for k, cmt in enumerate(Tcomments):
             tLogger.debug(ident(f'Tcomments[{k:4d}] = "{cmt}"'))
     
     # process the source input 
-- 
2.43.0


From d2ad39bdc1220a1170cfab157742e25b2fd71e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 014/134] fix: ReadTSF and WriteTSF do not follow the
 touchstone 2-port order (rfBase.tsf2str does)

---
 src/pyRFtk/ReadTSF.py  | 2 ++
 src/pyRFtk/WriteTSF.py | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index eae2741..4f9335b 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -105,6 +105,8 @@ def ReadTSF(src, **kwargs):
     # reshape the collected coeffcients
     N = int(round(np.sqrt( len(Ss[0]) )))
     Ss = np.array(Ss).reshape((len(fs), N, N))
+    if N == 2: # touchstone convention for 2-ports: S11 S21 S12 S22
+        Ss = np.transpose(Ss, (0, 2, 1))
     
     # analyse the format string: 
     #  for unnormalized data (R missing) Zbase is set to None
diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index e03ba21..3cefa07 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -28,9 +28,8 @@ def WriteTSF(object, path2tsf=None,
         comments   : multi-line string
         
         
-        note (I believe) the touchstone specification 1.1 transposes the 
-             the coefficients for .s2p (2-ports): this is not implemented here
-             as it is (apparently) not done in ReadTSF. 
+        note the touchstone specification 1.1 transposes the coefficients for
+             .s2p (2-ports): S11 S21 S12 S22
         
     """
 
@@ -100,6 +99,8 @@ def WriteTSF(object, path2tsf=None,
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
         d = object.getS(fk, Zbase=zref)
+        if nports == 2: # touchstone convention for 2-ports
+            d = np.transpose(d)
         for kr in range(nports):
             for kc in range(nports):
                 dij = d[kr,kc]
-- 
2.43.0


From 6730e04f6feb754de0cf0e0bde263402cc80d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 015/134] fix: WriteTSF writes DB data when the option line
 means MA

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 3cefa07..4d635f8 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -58,7 +58,7 @@ def WriteTSF(object, path2tsf=None,
         
     fmt = re.findall('(RI|MA|DB)',tsf_format.upper())
     if len(fmt) == 0:
-        fmt = 'DB'  # default
+        fmt = 'MA'  # touchstone default
     elif len(fmt) == 1:
         fmt = fmt[0]
     else:
-- 
2.43.0


From 4cd9783696e2797271e9370301440fb29f526861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 016/134] fix: WriteTSF ignores the reference impedance when R
 is in lower case

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 4d635f8..5067b7b 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -50,7 +50,7 @@ def WriteTSF(object, path2tsf=None,
         zref = float(
                 re.findall(
                     r'^.*?R\s*([-+]?(?:\d*[\.])?\d+(?:[eE][-+]?\d+)?).*?$',
-                    tsf_format
+                    tsf_format.upper()
                 )[0]
                )
     except:
-- 
2.43.0


From 395bbd723b57c85a9a2925e64fea5b49a4da4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 017/134] fix: WriteTSF writes S data under a Z or Y option
 line

---
 src/pyRFtk/WriteTSF.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 5067b7b..cf67d2b 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -4,6 +4,9 @@ import numpy as np
 import re
 import time
 
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
+
 
 
 #===============================================================================
@@ -66,6 +69,10 @@ def WriteTSF(object, path2tsf=None,
             'WriteTSF: one one of DB, RI or MA allowed in format string'
             )
         
+    datatype = ([_ for _ in tsf_format.upper().split() if _ in ['S','Y','Z']]
+                + ['S'])[0]
+    convert = {'S': lambda S, Z0: S, 'Z': Z_from_S, 'Y': Y_from_S}[datatype]
+    
     try:
         if len(object.ports) > 0 :
             s += '!PORTS ' + ', '.join(object.ports) + '\n\n'
@@ -98,7 +105,7 @@ def WriteTSF(object, path2tsf=None,
     
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
-        d = object.getS(fk, Zbase=zref)
+        d = convert(object.getS(fk, Zbase=zref), zref)
         if nports == 2: # touchstone convention for 2-ports
             d = np.transpose(d)
         for kr in range(nports):
-- 
2.43.0


From 59c3ee2124210580340d5b1b5b6904cb8b77e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 018/134] fix: WriteTSF may write frequencies with too few
 decimals

---
 src/pyRFtk/WriteTSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index cf67d2b..3623972 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -96,9 +96,9 @@ def WriteTSF(object, path2tsf=None,
     
     if num_format is None:
         if fmt in ['DB','MA']:
-            num_format = ('9.5f', '15.12f', '+8.4f')
+            num_format = ('14.9f', '15.12f', '+8.4f')
         else:
-            num_format = ('8.4f', '10.7f', '10.7f')
+            num_format = ('14.9f', '10.7f', '10.7f')
     
     tnumfmt = f'%{num_format[1]} %{num_format[2]} '
     leadspaces = ' '*(1 + int(num_format[0].split('.')[0]))
-- 
2.43.0


From 0914e43d9dfdbc0ff72e6ed8fe41e73cedf6d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 019/134] fix: rfObject cannot interpolate when its frequencies
 were not set in order

---
 src/pyRFtk/rfObject.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 924e4ae..bc7b0e6 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -437,8 +437,11 @@ class rfObject():
             self.fs = self.fs[idxs]
             self.Ss = self.Ss[idxs,:,:]
                         
-            self.Zcs = self.Zcs[idxs,:]
-            self.Gms = self.Gms[idxs,:]
+            # note: not all objects have port impedances and gammas
+            if len(self.Zcs):
+                self.Zcs = self.Zcs[idxs,:]
+            if len(self.Gms):
+                self.Gms = self.Gms[idxs,:]
             
             self.sorted = True
         
-- 
2.43.0


From 066815cd576f938129f1a7d1389dde02f37b35f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 020/134] fix: rfObject.setS only compares the last two
 frequencies of a list

---
 src/pyRFtk/rfObject.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index bc7b0e6..e6cd77d 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -615,9 +615,7 @@ class rfObject():
         self.Ss = np.append(self.Ss, S, axis=0)
         
         # do not sort each time
-        self.sorted = self.sorted and (
-            (len(self.fs) == 1) or (self.fs[-2] < self.fs[-1])
-        )
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
         
     #===========================================================================
     #
-- 
2.43.0


From 6b5a72224736de3c2feb849708e4403859800642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 021/134] fix: rfObject.setS of a frequency that is already
 present is ignored

---
 src/pyRFtk/rfObject.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index e6cd77d..6d106fd 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -611,8 +611,13 @@ class rfObject():
             # we should never come here
             raise SystemError(f'{whoami}: Shape of S does not match ')
                 
-        self.fs = np.append(self.fs,[f])
-        self.Ss = np.append(self.Ss, S, axis=0)
+        for fk, Sk in zip(f, S):
+            k = np.where(self.fs == fk)[0]
+            if k.size: # this frequency is already present: update it
+                self.Ss[k[0]] = Sk
+            else:
+                self.fs = np.append(self.fs, fk)
+                self.Ss = np.append(self.Ss, [Sk], axis=0)
         
         # do not sort each time
         self.sorted = bool(np.all(np.diff(self.fs) > 0))
-- 
2.43.0


From d06859bc848d440400d1570aa3f90ed945e3aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 022/134] fix: a setS rejected for its port count leaves the
 rfObject with the wrong ports

---
 src/pyRFtk/rfObject.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 6d106fd..1288fc9 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -571,14 +571,10 @@ class rfObject():
         
         whoami = 'pyRFtk2.rfObject.setS'
         
-        self.interpOK = False
-        self.interpA = None
-        self.interpM = None
-        
         try:
             *_, S =  _check_3D_shape_(S)
         except ValueError:
-            raise ValueError(f'{whoami}: Unexpected shape: {S.shape}')
+            raise ValueError(f'{whoami}: Unexpected shape: {np.shape(S)}')
         
         f =  np.array(f) if hasattr(f, '__iter__') else np.array([f])
                     
@@ -590,18 +586,23 @@ class rfObject():
         if Portnames == None:
             if not self.ports:
                 # no port names were defined yet: implicitely set to default names
-                self.ports = ['%02d' % k for k in range(S.shape[-1])]
+                Portnames = ['%02d' % k for k in range(S.shape[-1])]
+            else:
+                Portnames = self.ports
         else:
             if self.ports:
                 raise ValueError(f'{whoami}: cannot redefine the portnames')
-            else:
-                self.ports = Portnames
                 
-        # self.ports is defined 
-        if len(self.ports) != S.shape[-1]:
+        if len(Portnames) != S.shape[-1]:
             raise ValueError(
                 f'{whoami}: number of object\'s Portnames ({len(Portnames)}) '
-                f'does not match shape of S ({len(S.shape[-1])})')
+                f'does not match shape of S ({S.shape[-1]})')
+        
+        # self.ports is defined 
+        self.ports = Portnames
+        self.interpOK = False
+        self.interpA = None
+        self.interpM = None
         
         if len(self.fs) == 0:
             # the object has no frequency entries yet ...
-- 
2.43.0


From b7256290a406593776350714c26ff2fc7dd39ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 023/134] fix: rfObject has no port positions after setS and
 loses the given ones for a touchstone

---
 src/pyRFtk/rfObject.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 1288fc9..33a481b 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -600,6 +600,8 @@ class rfObject():
         
         # self.ports is defined 
         self.ports = Portnames
+        if len(self.xpos) != len(self):
+            self.xpos = [0.] * len(self)
         self.interpOK = False
         self.interpA = None
         self.interpM = None
@@ -665,7 +667,8 @@ class rfObject():
         self.Zcs = np.array(r['Zc'])
         self.Gms = np.array(r['Gm'])
         self.variables = r['variables']
-        self.xpos = [0.] * len(self)
+        if len(self.xpos) != len(self):
+            self.xpos = [0.] * len(self)
         
     #===========================================================================
     #
-- 
2.43.0


From ca4045128b6864334c8cc54cb411f99fffc0eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 024/134] fix: rfObject.sortports fails for a touchstone
 without port impedances

---
 src/pyRFtk/rfObject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 33a481b..b7bf9db 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -422,8 +422,10 @@ class rfObject():
         
         self.ports = [self.ports[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
-        self.Zcs = self.Zcs[:,idxs]
-        self.Gms = self.Gms[:,idxs]
+        if len(self.Zcs):
+            self.Zcs = self.Zcs[:,idxs]
+        if len(self.Gms):
+            self.Gms = self.Gms[:,idxs]
     
     #===========================================================================
     #
-- 
2.43.0


From 36165857f6093a8b9368f81300f66feeddc4aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 025/134] fix: rfObject.sortports leaves the port positions in
 the old order

---
 src/pyRFtk/rfObject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index b7bf9db..7194845 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -421,6 +421,7 @@ class rfObject():
             idxs = np.array(self.ports).argsort()
         
         self.ports = [self.ports[k] for k in idxs]
+        self.xpos = [self.xpos[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
         if len(self.Zcs):
             self.Zcs = self.Zcs[:,idxs]
-- 
2.43.0


From b5e5e6bd61af1935788c6e19a4af8c2cec85c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 026/134] fix: rfObject interpolates stale data after
 sortports, convert2newZbase, an item assignment or read_tsf

---
 src/pyRFtk/rfObject.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 7194845..3768429 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -346,6 +346,8 @@ class rfObject():
     def __setitem__(self, k, value):
         self.fs[k] = value[0]
         self.Ss[k,:,:] = value[1]
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
+        self.interpOK = False
     
     #===========================================================================
     #
@@ -423,6 +425,7 @@ class rfObject():
         self.ports = [self.ports[k] for k in idxs]
         self.xpos = [self.xpos[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
+        self.interpOK = False
         if len(self.Zcs):
             self.Zcs = self.Zcs[:,idxs]
         if len(self.Gms):
@@ -521,6 +524,7 @@ class rfObject():
         
         self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')
         self.Zbase = newZbase
+        self.interpOK = False
     
     #===========================================================================
     #
@@ -658,6 +662,7 @@ class rfObject():
     #
     def read_tsf(self, src, **kwargs):
         r = ReadTSF(src, **kwargs)
+        self.interpOK = False
         self.fs = r['fs']   # * (FUNITS[r['funit'].upper()] 
                             #  / FUNITS[self.funit.upper()])
         self.Ss = r['Ss']
-- 
2.43.0


From ff224b227e1de8805ea40b92e1cb843bafd306f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 027/134] fix: comparing two rfObjects raises ValueError

---
 src/pyRFtk/rfObject.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 3768429..1620707 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -380,9 +380,24 @@ class rfObject():
     #
     def __eq__(self, other, verbose=False):
         
+        def same(a, b):
+            if isinstance(a, (list, tuple)):
+                return (type(a) == type(b) and len(a) == len(b)
+                        and all(same(ak, bk) for ak, bk in zip(a, b)))
+            if isinstance(a, dict):
+                return (isinstance(b, dict) and a.keys() == b.keys()
+                        and all(same(a[k], b[k]) for k in a))
+            return np.array_equal(a, b)
+        
+        # these only depend on what was last evaluated
+        volatile = ['f', 'S', 'interpOK', 'interpM', 'interpA']
+        
         diflist = []
-        otherval = [val for val in other.__dict__]
+        otherval = [val for val in other.__dict__ if val not in volatile]
         for val in self.__dict__:
+            if val in volatile:
+                continue
+            
             if val not in otherval:
                 diflist.append((val,'<'))
             
@@ -390,12 +405,12 @@ class rfObject():
                 otherval.pop(otherval.index(val))
                 
                 if val in ['fs', 'Ss']:
-                    if not (len(self.fs) == len(other.fs)
+                    if not (self.__dict__[val].shape == other.__dict__[val].shape
                         and np.allclose(self.__dict__[val], other.__dict__[val])):
                         diflist.append((val,'!='))
                         
                 else:
-                    if self.__dict__[val] != other.__dict__[val]:
+                    if not same(self.__dict__[val], other.__dict__[val]):
                         diflist.append((val,'!='))
                         
         if otherval:
-- 
2.43.0


From 35c9769b4d1f47c64edeac10f34c7c8759c5b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 028/134] fix: rfObject.maxV compares complex voltages instead
 of their magnitudes

---
 src/pyRFtk/rfObject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 1620707..5a7181f 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -658,11 +658,11 @@ class rfObject():
         Zbase = self.Zbase if Zbase == None else Zbase
         Ea = [E[p] for p in self.ports]
         Eb = self.getS(f, Zbase=Zbase) @ Ea   # implicitly updates and solves the circuit
-        Vi = Ea + Eb
+        Vi = np.abs(Ea + Eb)
         maxVi = np.max(Vi)
         k = np.where(Vi == maxVi)[0][0]
         
-        return maxVi, ID+'.'+self.ports[k], ([0],[maxVi])
+        return maxVi, ID+'.'+self.ports[k], (np.zeros(Vi.shape), Vi)
     
     #===========================================================================
     #
-- 
2.43.0


From c7c8cdb8ca6a334de140d49573477f39983116ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 029/134] fix: rfObject.deembed empties the caller's dict and
 rejects an unknown port after the fact

---
 src/pyRFtk/rfObject.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 5a7181f..d3d2b98 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -732,6 +732,13 @@ class rfObject():
         
         """
           
+        ports = ports.copy()
+        unknown = [p for p in ports if p not in self.ports]
+        if unknown:
+            raise ValueError(
+                f'pyRFtk2.rfObject.deembed: port(s) {",".join(unknown)}'
+                ' not found.')
+        
         self.interpOK = False      
         
         for kp, port in enumerate(self.ports):
@@ -785,9 +792,4 @@ class rfObject():
                 
                     self.Ss[kS,:,:] = Sobj[:,:]
 
-        if ports:
-            raise ValueError(
-                f'pyRFtk2.rfObject.deembed: port(s) {",".join([p for p in ports])}'
-                ' not found.')
-
 
-- 
2.43.0


From a0e4845fd7603e1761f80b1ab6313b4eda1421b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 030/134] fix: rfObject.deembed fails for a scalar length

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index d3d2b98..2c02721 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -747,7 +747,7 @@ class rfObject():
                 if isinstance(v,tuple) and len(v) == 2:
                     L, Z = v
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
-                elif isinstance(v, [int, float]):
+                elif isinstance(v, (int, float)):
                     L, Z = v, self.Zbase
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
                 elif isinstance(v, dict):
-- 
2.43.0


From b4d64ebb060fbeaf69ad3f62e8e42eae3f32a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 031/134] fix: rfObject.deembed requires and removes Zbase in a
 dict of line parameters

---
 src/pyRFtk/rfObject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 2c02721..0d12394 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -751,8 +751,8 @@ class rfObject():
                     L, Z = v, self.Zbase
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
                 elif isinstance(v, dict):
-                    v.pop('Zbase') # we need it in self.Zbase
-                    TRL = rfTRL(**v, Zbase=self.Zbase)
+                    # we need it in self.Zbase
+                    TRL = rfTRL(**dict(v, Zbase=self.Zbase))
                 else:
                     raise ValueError(
                         f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
-- 
2.43.0


From 9b8996e80d743e0db977a66c4080e9f21f4a3908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 032/134] fix: rfObject.deembed ignores the frequency unit of
 the object

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 0d12394..a80bf52 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -759,7 +759,7 @@ class rfObject():
     
                 
                 for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
-                    Strl = TRL.getS(f)
+                    Strl = TRL.getS(f * self.fscale)
                                         
                     qn = 1 - Strl[0,0] * Sobj[kp,kp]
                     if np.abs(qn) != 0:
-- 
2.43.0


From 510b19f4b6c0c922cfe2a67e1fd99e3b65a4cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 033/134] fix: ConvertGeneral loses the shape of an empty array

---
 src/pyRFtk/ConvertGeneral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ConvertGeneral.py b/src/pyRFtk/ConvertGeneral.py
index 0af2db7..174c0ba 100644
--- a/src/pyRFtk/ConvertGeneral.py
+++ b/src/pyRFtk/ConvertGeneral.py
@@ -124,7 +124,7 @@ def ConvertGeneral(Z2, S1, Z1, type1='V', type2='V'):
         B2 = np.diag(TbVk) @ V + np.diag(TbIk) @ I
         S2.append(B2 @ np.linalg.inv(A2))
     
-    S2 = np.array(S2)
+    S2 = np.array(S2).reshape(S1.shape)
     
     if L == 0:
         _debug_ and logident('< L==0')
-- 
2.43.0


From 67e0333d3ef4e1c7732944b5861ab2c36de4a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 034/134] fix: rfArcObj has no port by default

---
 src/pyRFtk/rfArcObj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index f9e0e89..624fedb 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -50,7 +50,8 @@ class rfArcObj(rfBase):
             
         _debug_ and logident(f'{kwargs}')
         
-        super().__init__(**kwargs)
+        super().__init__(**(kwargs if 'Ss' in kwargs else 
+                            dict({'ports': ['1']}, **kwargs)))
         
         _debug_ and logident(f'{kwargs}')
         
-- 
2.43.0


From a92ecf7ad3d45b8d282a337f3aa6ba5ab91514f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 035/134] fix: rfArcObj.getS returns a scalar instead of a 1x1
 matrix

---
 src/pyRFtk/rfArcObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index 624fedb..ca57f8f 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -83,6 +83,6 @@ class rfArcObj(rfBase):
     def get1S(self, f):
         
         jwL = 2j * np.pi * f  * self.Larc
-        Ss = (jwL - self.Zbase) / (jwL + self.Zbase)
+        Ss = np.array([[(jwL - self.Zbase) / (jwL + self.Zbase)]])
         self.f, self.S = f, Ss
         return Ss
-- 
2.43.0


From 1360092614a83e884c2564ff89bcd6a151c454db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 036/134] fix: rfArcObj with its default infinite inductance is
 nan

---
 src/pyRFtk/rfArcObj.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index ca57f8f..2663680 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -82,7 +82,10 @@ class rfArcObj(rfBase):
     #
     def get1S(self, f):
         
-        jwL = 2j * np.pi * f  * self.Larc
-        Ss = np.array([[(jwL - self.Zbase) / (jwL + self.Zbase)]])
+        if np.isinf(self.Larc): # open
+            Ss = np.array([[1. + 0j]])
+        else:
+            jwL = 2j * np.pi * f  * self.Larc
+            Ss = np.array([[(jwL - self.Zbase) / (jwL + self.Zbase)]])
         self.f, self.S = f, Ss
         return Ss
-- 
2.43.0


From d311f09afbc7eb9391a08bae8add0070df17cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 037/134] fix: rfCoupler takes a coupling of 0 (or 0 dB) as not
 specified

---
 src/pyRFtk/rfCoupler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCoupler.py b/src/pyRFtk/rfCoupler.py
index 9825e5f..f13eb4b 100644
--- a/src/pyRFtk/rfCoupler.py
+++ b/src/pyRFtk/rfCoupler.py
@@ -85,15 +85,15 @@ class rfCoupler(rfBase):
                 f'{whoami(__package__)}: sNp not yet implemented' # @UndefinedVariable
             )
 
-        if self.kc:
-            if self.kcdB:
+        if self.kc is not None:
+            if self.kcdB is not None:
                 raise ValueError(
                     f'{whoami(__package__)}: only one of kc or kcdB can be given' # @UndefinedVariable
                 )
             else:
                 self.kcdB = 20 * np.log10(self.kc)
         else:
-            if self.kcdB:
+            if self.kcdB is not None:
                 self.kc = 10**(-np.abs(self.kcdB)/20)
             else:
                 self.kc = np.sqrt(0.5)
-- 
2.43.0


From cf688a3461a79d7add4a89fbbd1f90270aa61c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 038/134] fix: the matrix returned by rfBase.getS is a view on
 the object's own data

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 5d74f3b..403257a 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -257,7 +257,7 @@ class rfBase():
             )
         
         _debug_ and logident(f'self.Ss={self.Ss}')
-        S = self.Ss[k[0],:,:]
+        S = self.Ss[k[0],:,:].copy()
         _debug_ and logident(f'S[k]={S}')
         self.f, self.S = f, S
         
-- 
2.43.0


From 8930667c08a9baf258823f194d2f60b8e3177e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 039/134] fix: the VSWs of rfBase.maxV cannot be scaled,
 printed or plotted

---
 src/pyRFtk/rfBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 403257a..763dfee 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -483,7 +483,8 @@ class rfBase():
         Vmax = np.max(absV)
         where = self.ports[list(np.where(absV == Vmax)[0])[0]]
         VSWs = {
-            Id: dict( (p, Vp) for p, Vp in zip(self.ports, absV))
+            Id: dict( (p, ([x], [Vp])) 
+                      for p, x, Vp in zip(self.ports, xpos, absV))
         }
         
         return Vmax, where, VSWs
-- 
2.43.0


From 81a53c9931e4a93705cfdd07c4f8b39951501d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 040/134] fix: rfBase and rfRLC objects share the lists of
 ports and positions of the caller

---
 src/pyRFtk/rfBase.py | 6 +++---
 src/pyRFtk/rfRLC.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 763dfee..28027cb 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -91,7 +91,7 @@ class rfBase():
             # self.kwused.append('Ss')
             
             if 'ports' in kwargs:
-                self.ports = kwargs.pop('ports')
+                self.ports = list(kwargs.pop('ports'))
                 if len(self.ports) != self.Ss.shape[1]:
                     raise ValueError(
                         'pyRFtk2.rfBase: inconsitent "ports" and "S" given'
@@ -101,7 +101,7 @@ class rfBase():
                 self.ports = [f'{p_}' for p_ in range(1,self.Ss.shape[1]+1)]
             
         elif 'ports' in kwargs:
-            self.ports = kwargs.pop('ports')
+            self.ports = list(kwargs.pop('ports'))
             self.Ss = 1j*np.zeros((0, len(self.ports),len(self.ports)))
             # self.kwused.append('ports')
             
@@ -119,7 +119,7 @@ class rfBase():
                 f'Ss [{self.Ss.shape[0]}].'
             )
         
-        self.xpos = kwargs.pop('xpos', [0.] * len(self))
+        self.xpos = list(kwargs.pop('xpos', [0.] * len(self)))
         # self.kwused.append('xpos')
         
         self.f, self.S = None, None
diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 7b09b6b..3cef026 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -69,7 +69,7 @@ class rfRLC():
         
         self.Id = kwargs.pop('Id', f'{type(self).__name__}_{_newID()}')
         self.Zbase = kwargs.pop('Zbase', 50.)
-        self.ports = kwargs.pop('ports',['s','p'])
+        self.ports = list(kwargs.pop('ports',['s','p']))
         self.Rs = kwargs.pop('Rs', 0.)
         self.Ls = kwargs.pop('Ls', 0.)
         self.Cs = kwargs.pop('Cs', +np.inf)
@@ -78,7 +78,7 @@ class rfRLC():
         self.Cp = kwargs.pop('Cp', 0.)
         self.f = None
         self.S = np.array([[0,1],[1,0]], dtype=complex)
-        self.xpos = kwargs.pop('xpos',[0., 0.])
+        self.xpos = list(kwargs.pop('xpos',[0., 0.]))
         self.attrs = ['Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp']
     
     #===========================================================================
-- 
2.43.0


From ffac1c905d2dcd99a944bb67c676aa4f4397f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 041/134] fix: a rejected set() of a rfBase or rfRLC leaves
 part of its arguments applied

---
 src/pyRFtk/rfBase.py | 7 +++++++
 src/pyRFtk/rfRLC.py  | 5 +++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 28027cb..ab326dd 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -215,6 +215,13 @@ class rfBase():
     def set(self, **kwargs):
         """set attributes of the object if present
         """
+        for kw in kwargs:
+            if kw not in self.attrs:
+                raise ValueError(
+                        f'{whoami(__package__)}: attribute {kw} of {self.Id} '  # @UndefinedVariable
+                        'cannot be set'
+                    )
+
         modified = False
         for kw, val in kwargs.items():
             try:
diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 3cef026..da59c42 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -158,11 +158,12 @@ class rfRLC():
         _debug_ = logit['DEBUG']
         _debug_ and logident('>', printargs=True)
 
-        modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs:
             if not hasattr(self, kw) or kw not in self.attrs:
                 raise ValueError(f'rfTRL.set: parameter {kw} not present')
         
+        modified = False
+        for kw, val in kwargs.items():
             modified |= getattr(self, kw) != val
             setattr(self, kw, val)
             self.kwargs[kw] = val
-- 
2.43.0


From 79878d45a2dc36c913c0e78df8c5cf725e1c6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 042/134] fix: a rfTRL from a touchstone unwraps the phases
 along the ports

---
 src/pyRFtk/rfTRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 1577ea2..ccdd622 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -222,8 +222,8 @@ class rfTRL():
             Ss = self.sNpdata['Ss']
             fmt = self.sNpdata['datafmt'].upper()
             
-            d = {'MA': (lambda z: [np.abs(z), np.unwrap(np.angle(z))]),
-                 'DB': (lambda z: [20*np.log10(z).real, np.unwrap(np.angle(z))]),
+            d = {'MA': (lambda z: [np.abs(z), np.unwrap(np.angle(z), axis=0)]),
+                 'DB': (lambda z: [20*np.log10(z).real, np.unwrap(np.angle(z), axis=0)]),
                  'RI': (lambda z: [z.real, z.imag])
                 }[fmt](Ss[:])
                         
-- 
2.43.0


From 9c1a71cb436f3d64c76bf6da980d137617957054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 043/134] fix: node points of a rfTRL with varying parameters
 (wrong wavelength, f=0, L=0)

---
 src/pyRFtk/rfTRL.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index ccdd622..a1c08c4 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -436,10 +436,12 @@ class rfTRL():
 
                     xs = [0.]
                     while xs[-1] < self.L:
-                        xs.append(xs[-1] + wavlen(f,xs[-1])/self.dx)
+                        xs.append(xs[-1] + min(wavlen(w,xs[-1])/self.dx, self.L))
                     
                     # may have overshot the end point so we rescale everything
-                    xs = np.array(xs) * self.L/xs[-1]
+                    xs = np.array(xs)
+                    if self.L:
+                        xs *= self.L/xs[-1]
                     
             else: # step explicitly given
                 if self.dx < 0:
-- 
2.43.0


From 206ba08b8dc23fe43f30da27265e949c69cfba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 044/134] fix: rfTRL with constant parameters is nan at f=0

---
 src/pyRFtk/rfTRL.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index a1c08c4..3f3f5cd 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -473,15 +473,23 @@ class rfTRL():
                 # so one does not have to solve the differential eqn
                 
                 gm = (self.rjwL(w,0) * self.gjwC(w,0)) ** 0.5
-                Zc = self.rjwL(w,0) / gm
                 
-                egmx = np.exp(gm * xs)
-                egmx1 = 1/egmx
+                if gm == 0: # e.g. at f = 0
+                    U10 = np.ones(xs.shape, dtype=complex)
+                    I10 = self.gjwC(w,0) * xs + 0j
+                    U01 = self.rjwL(w,0) * xs + 0j
+                    I01 = U10
                 
-                U10 = 0.5 * (egmx + egmx1)
-                I10 = 0.5 * (egmx - egmx1) / Zc
-                U01 = Zc **2 * I10
-                I01 = U10
+                else:
+                    Zc = self.rjwL(w,0) / gm
+                    
+                    egmx = np.exp(gm * xs)
+                    egmx1 = 1/egmx
+                    
+                    U10 = 0.5 * (egmx + egmx1)
+                    I10 = 0.5 * (egmx - egmx1) / Zc
+                    U01 = Zc **2 * I10
+                    I01 = U10
                 
             else:
                 
-- 
2.43.0


From 5b0738c77ecf978ba2b2ec3a979a116c28e5088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 045/134] fix: a rejected rfTRL.set changes the parameters but
 not the results

---
 src/pyRFtk/rfTRL.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 3f3f5cd..f7844dc 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -347,12 +347,13 @@ class rfTRL():
             raise ValueError(
                 f'{whoami(__package__)}: not possible because the transmission '  # @UndefinedVariable
                              'line parameters are not constant')
-        modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs:
             if not hasattr(self, kw):
                 raise ValueError(
                     f'{whoami(__package__)}: parameter {kw} not present')  # @UndefinedVariable
                 
+        modified = False
+        for kw, val in kwargs.items():
             modified |= getattr(self,kw) != val
             setattr(self, kw, val)
             self.kwargs[kw] = val
-- 
2.43.0


From 135984a93e50f6dd907158525fe8cd2d265c585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 046/134] fix: rfTRL returns references to its cached results

---
 src/pyRFtk/rfTRL.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index f7844dc..c1f7d2b 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -518,7 +518,7 @@ class rfTRL():
             
         if I0 is None and V0 is None:
             
-            return self.solved[f]['S']
+            return self.solved[f]['S'].copy()
             
         else:
             if I0 is None:
@@ -530,7 +530,7 @@ class rfTRL():
             UIS = self.solved[f]
             VI1s = np.tensordot(UIS['VI'], np.array([V0,I0]), axes=([1],[0]))
             
-            return self.solved[f]['xs'], VI1s[0], VI1s[1]
+            return self.solved[f]['xs'].copy(), VI1s[0], VI1s[1]
             
     #===========================================================================
     #
@@ -596,7 +596,8 @@ class rfTRL():
             
             self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, E)
             
-        return self.solved[f]['xs'], self.solved[f]['VISWs'][(Ahash, Zbase)]
+        return copy.deepcopy((self.solved[f]['xs'], 
+                              self.solved[f]['VISWs'][(Ahash, Zbase)]))
     
     #===========================================================================
     #
-- 
2.43.0


From ef2c090e092ed1e5f45e9ffbbacede3fe46124c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 047/134] fix: rfTRL shares the lists of ports and positions of
 the caller

---
 src/pyRFtk/rfTRL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index c1f7d2b..9b4f068 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -184,7 +184,7 @@ class rfTRL():
             self.kwargs = kwargs.copy()
             
         self.Id = kwargs.pop('Id','rfTRL_'+_newID())
-        self.ports = kwargs.pop('ports',['1','2'])
+        self.ports = list(kwargs.pop('ports',['1','2']))
         self.L = kwargs.pop('L', 0.)
         self.Zbase = kwargs.pop('Zbase', 50.)
         self.dx = kwargs.pop('dx', 72) # int -> 1/int-th of wavelength 
@@ -197,9 +197,9 @@ class rfTRL():
         
         xpos = kwargs.pop('xpos', [0., self.L])
                         
-        if isinstance(xpos, list):
+        if hasattr(xpos, '__len__'):
             if len(xpos) == 2:
-                self.xpos = xpos
+                self.xpos = list(xpos)
             else:
                 raise ValueError(
                     'rfTRL.__init__: port count mismatch'
-- 
2.43.0


From dedf927438ef2034bec2a45a49bcae4825a809f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 048/134] fix: TLresolver uses the inner surface resistance for
 the outer conductor

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 056a559..fdb7a57 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -113,7 +113,7 @@ class TLresolver():
             return self.rTL(w,x) - self.rTLI(w,x)
         
         def _rTLO__qTLO_RsO_(w,x=0):                                         #21
-            return self.qTLO(w,x) * self.RsI(w,x)
+            return self.qTLO(w,x) * self.RsO(w,x)
         
         def _rTL__A_CTL_gTL_LTL_(w,x=0):
             wL = w * self.LTL(w,x)
-- 
2.43.0


From ba170ab19fdd0ac24919e297c5aaa228588db86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 049/134] fix: TLresolver wrongly converts dB/m to 1/m

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index fdb7a57..62ed510 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -240,7 +240,7 @@ class TLresolver():
             ),
             #-- ------------------------------------------------------------- --
             ('A', ('AdB',), 0., lambda w, x:                                 #39
-                1-10**(self.AdB(w,x)/20)
+                np.abs(self.AdB(w,x)) * np.log(10) / 20
             ),
             #-- ------------------------------------------------------------- --            
             # not approximations ...
-- 
2.43.0


From 3ac85647a93e6b5d3e60bae5033b1286759b3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 050/134] fix: TLresolver wrongly derives mur from epsr and vr
 or epsr from mur and vr

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 62ed510..203ff2a 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -219,10 +219,10 @@ class TLresolver():
                 1 / np.sqrt(self.mur(w,x) * self.epsr(w,x))
             ),
             ('mur', ('vr', 'epsr'), 0., lambda w, x:                         #33
-                self.epsr(w, x) / self.vr(w, x)**2
+                1 / (self.epsr(w, x) * self.vr(w, x)**2)
             ),
             ('epsr', ('vr','mur'), 0., lambda w, x:                          #34
-                self.mur(w, x) / self.vr(w, x)**2
+                1 / (self.mur(w, x) * self.vr(w, x)**2)
             ),
             #-- ------------------------------------------------------------- --
             ('mur', ('etar', 'vr'), 0., lambda w, x:                         #35
-- 
2.43.0


From 4859d6b4b3135dcafec2f04e7d68a70d3a9e34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 051/134] fix: TLresolver calls a TL parameter function without
 parameters too early

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 203ff2a..036d1d4 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -453,7 +453,7 @@ class TLresolver():
                     return  (lambda w, x: p(x)), ddw, ddx
                 else:
                     # constant function
-                    return p(), ddw, ddx
+                    return (lambda w, x: p()), ddw, ddx
                   
         # we (should) have a scalar numerical or a 1/2-D array like
         p = np.array(p)
-- 
2.43.0


From 2e5f9ee5cc8c9bc53b8a26a4776f6e2d96cadf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 052/134] fix: TLresolver ignores a supplied gTL

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 036d1d4..a155921 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -303,7 +303,7 @@ class TLresolver():
                                      'ddw': False, 'ddx': False}
                 self.order.append('rTL')
 
-            if not any(avail('sigma', 'tand', 'Am', 'AmdB')):
+            if not any(avail('gTL', 'sigma', 'tand', 'Am', 'AmdB')):
                 # have no attenuation and nothing to compute medium losses
                 # if any losses they must come from the conductors -> gTL = 0
                 setattr(self, 'gTL', lambda w, x: 0.)
@@ -314,7 +314,7 @@ class TLresolver():
         else:
             if not any(avail('Ac', 'AcdB', 'Rs','RsI','RsO',
                              'rTL','rTLO','rTLI', 'rho','rhoI','rhoO',
-                             'sigma', 'tand', 'Am', 'AmdB')):
+                             'gTL', 'sigma', 'tand', 'Am', 'AmdB')):
                 # we have an attenuation but nothing to compute either conductor
                 # or medium losses -> we assume there are no medium losses
                 setattr(self, 'gTL', lambda w, x: 0.)
-- 
2.43.0


From 3ff8d55bb0538a3b5e3e877827cfd46a151be162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 053/134] fix: maxfun compares abscissae and forgets the
 maximum so far when its parabola fails

---
 src/pyRFtk/maxfun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyRFtk/maxfun.py b/src/pyRFtk/maxfun.py
index cd57cc5..2412fa5 100644
--- a/src/pyRFtk/maxfun.py
+++ b/src/pyRFtk/maxfun.py
@@ -64,8 +64,7 @@ def maxfun(xs, ys):
                 xymax = xy
         else:
             debug and tLogger.debug(ident('Warning result outside window'))
-            xymax = 0, 0
-            for xm, ym in zip(xs[idx:idx+3],xs[idx:idx+3]):
+            for xm, ym in zip(xs[idx:idx+3],ys[idx:idx+3]):
                 if ym > xymax[1]:
                     xymax = xm, ym
             
-- 
2.43.0


From bf9916a1e7a4798e2328755dbe5a6bb168844355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 054/134] fix: str_dict returns the text of its previous calls
 too

---
 src/pyRFtk/str_dict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyRFtk/str_dict.py b/src/pyRFtk/str_dict.py
index 4186b6c..d0725ea 100644
--- a/src/pyRFtk/str_dict.py
+++ b/src/pyRFtk/str_dict.py
@@ -16,6 +16,9 @@ def str_dict(adict):
             str_dict(val)
         str_dict.N -= 1
         str_dict.s += '    '*str_dict.N + '},\n'
+        if str_dict.N == 0: # done: do not keep the text for the next call
+            s, str_dict.s = str_dict.s, ''
+            return s
     else:
         if isinstance(adict, tuple) and len(adict)==2:
             if len(adict[0]) == 1:
-- 
2.43.0


From fc7213bbbb28e2d953a937146fc807eae31e0643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 055/134] fix: scaleVSW fails for a node given as a tuple of
 scalars

---
 src/pyRFtk/plotVSWs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index 2f20e8a..23f448f 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -212,7 +212,7 @@ def scaleVSW(VSW, scale):
                 for k in range(len(val[1])):
                     val[1][k] *= scale
             else:
-                VSW[Id][1] *= scale
+                VSW[Id] = type(val)((val[0], val[1] * scale))
         else:
             raise ValueError('pyRFtk.CommonLib.plotVSWs.scaleVSW: internal error')
         
-- 
2.43.0


From 570741274c73a3067535f30877e500d3f8b108fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 056/134] fix: strVSW drops the sign of the positions

---
 src/pyRFtk/plotVSWs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index 23f448f..6749977 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -231,7 +231,7 @@ def strVSW(VSW, indent=0):
                 if len(val[0]) == len(val[1]):
                     for _, (x, y) in enumerate(zip(val[0], val[1]),1):
                         try:
-                            s += f'{" "*(indent+2)}{_:5d}:{np.abs(x):10.3f},{np.abs(y):10.3f}\n'
+                            s += f'{" "*(indent+2)}{_:5d}:{x:10.3f},{np.abs(y):10.3f}\n'
                         except:
                             if x is None:
                                 s += f'{" "*(indent+2)}{_:5d}:{" < None > ":10s},{np.abs(y):10.3f}\n'
@@ -240,7 +240,7 @@ def strVSW(VSW, indent=0):
                 else:
                     s += f'! unequal array/list lengths x:{len(val[0])} <> y:{len(val[0])}\n'
             elif not (hasattr(val[0],'__iter__') or hasattr(val[1],'__iter__')):
-                s += f'{" "*(indent+2)}{"node":5s}:{np.abs(val[0]):10.3f},{np.abs(val[1]):10.3f}\n'
+                s += f'{" "*(indent+2)}{"node":5s}:{val[0]:10.3f},{np.abs(val[1]):10.3f}\n'
             else:
                 s += f'! tuple error ...\n'
         else:
-- 
2.43.0


From 23d14ee906658587d5cc1c0d66e7b431f3cb373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 057/134] fix: a port of a rfCircuit that is terminated again
 keeps its previous result

---
 src/pyRFtk/rfCircuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index bb09306..4991b69 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -917,6 +917,7 @@ class rfCircuit(rfBase):
             idxA, idxB, eqn = self.T[port]
             self.M[eqn, idxB] = rho
             self.invM = None
+            self.S = None
         
         elif port in self.E:
             # this port was and external port
-- 
2.43.0


From e62a726b0f7900ea621acd7af0aae423efb7d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 058/134] fix: rfCircuit.terminate with an infinite Z or Y
 yields nan

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 4991b69..f496eda 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -896,10 +896,10 @@ class rfCircuit(rfBase):
                 
         if 'Z' in kwargs:
             Z = kwargs.pop('Z')
-            rho = (Z - self.Zbase) / (Z + self.Zbase)
+            rho = 1. if np.isinf(Z) else (Z - self.Zbase) / (Z + self.Zbase)
         elif 'Y' in kwargs:
             Y = kwargs.pop('Y')
-            rho = (1 - Y * self.Zbase) / (1 + Y * self.Zbase)
+            rho = -1. if np.isinf(Y) else (1 - Y * self.Zbase) / (1 + Y * self.Zbase)
         else:
             rho = kwargs.pop('RC', 0.)
             
-- 
2.43.0


From 83e29bc329dc26aeb4cc7ef7b52e1c159e290847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 059/134] fix: rfCircuit.terminate prints a message for an
 unknown port and fails afterwards

---
 src/pyRFtk/rfCircuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f496eda..6b8ebbb 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -887,8 +887,9 @@ class rfCircuit(rfBase):
             idxA = self.waves.index('->'+port)
             idxB = self.waves.index('<-'+port) 
         except ValueError as e:
-            msg = e.message if hasattr(e,'message') else e
-            print(f'circuit.terminate: port not found: {msg}')
+            raise ValueError(
+                f'{whoami(__package__)}: port {port} not found'
+            ) from e
        
         if len(kwargs) > 1:
             raise ValueError(
-- 
2.43.0


From 69781da20d3de5f5f4c3047a5022c0bb0b8e5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 060/134] fix: rfCircuit.getS ignores params when it was
 already solved at that frequency

---
 src/pyRFtk/rfCircuit.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 6b8ebbb..7e073c1 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1278,6 +1278,12 @@ class rfCircuit(rfBase):
                            ('flag sNp set to False' if 'sNp' in flags else '(why?)'))
                     tLogger.debug(ident(f'not using sNp: {msg}'))
                     
+                for blkID, sdict in params.items():
+                    if blkID in self.blocks and hasattr(
+                                           self.blocks[blkID]['object'], 'set'):
+                        if self.blocks[blkID]['object'].set(**sdict):
+                            self.S = None
+                
                 if f != self.f or self.S is None or self.flags != flags:
                     
                     # we need to recompute the S-matrix
@@ -1291,10 +1297,6 @@ class rfCircuit(rfBase):
                         N = len(blk['ports'])
                         
                         if hasattr(blk['object'], 'getS'):
-                            try:
-                                blk['object'].set(**params.get(blkID,{}))
-                            except AttributeError:
-                                pass
                             # recursively get the lower level S-matrices
                             S = blk['object'].getS(f, Zbase=self.Zbase, 
                                                    params=blk['params'], 
-- 
2.43.0


From 811dfef7065b0d2cd438641da875c6e7a6cd5fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 061/134] fix: rfCircuit.maxV and Solution do not apply the
 params of a block

---
 src/pyRFtk/rfCircuit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 7e073c1..6cd93c9 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1607,6 +1607,9 @@ class rfCircuit(rfBase):
                             tLogger.debug(ident(f'    {_p:{ls+1}s}: {_v:25.3f}V'))
                    
                     
+                    if blk['params']: # the object may be shared
+                        obj.getS(f, params=blk['params'], flags=flags)
+                    
                     tSolr = obj.Solution(f, Ek, Zbase, snodesleft, flags=flags)
                     
                     # collect and add the result to tSol
@@ -1798,6 +1801,9 @@ class rfCircuit(rfBase):
                 if hasattr(obj, 'maxV'):
                     try:
                         _debug_ and logident(f'{blkID}: xpos = {blk["xpos"]}')
+                        if blk['params']: # the object may be shared
+                            obj.getS(f, params=blk['params'], flags=flags)
+                        
                         t1, n1, VSW = obj.maxV(f, Ek, self.Zbase, blkID, 
                                                flags=flags,
                                                xpos = relpos + blk['xpos'])
-- 
2.43.0


From 4648cca3da30c6cdba9b20413255e1788990268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 062/134] fix: a rejected rfCircuit.set and objects shared by
 sub circuits leave stale results

---
 src/pyRFtk/rfCircuit.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 6cd93c9..8b4b0c8 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1081,6 +1081,19 @@ class rfCircuit(rfBase):
         _debug_ and tLogger.debug(ident(f'< [circuit.extS]',-1))
         return self.S
     
+    #===========================================================================
+    #
+    # _ u n s o l v e
+    #
+    def _unsolve(self):
+        """marks the circuit and its nested circuits as not solved (an object
+        that is modified may be used in several of these)
+        """
+        self.invM, self.f, self.S = None, None, None
+        for blk in self.blocks.values():
+            if hasattr(blk['object'], '_unsolve'):
+                blk['object']._unsolve()
+    
     #===========================================================================
     #
     # s e t 
@@ -1177,6 +1190,10 @@ class rfCircuit(rfBase):
             
             debug and logident(f'-> kwargs = {kwargs}')
             
+        # mark the circuit as not solved
+        if kwargs:
+            self._unsolve()
+            
         # progess the kwargs
         debug and logident('starting kwargs loop ...')
 
@@ -1228,11 +1245,6 @@ class rfCircuit(rfBase):
                 f'{obj.Id}.{attr} -> {getattr(obj,attr)}'
             )
                        
-        if modified:
-            self.invM = None # mark the circuit as not solved
-            self.f = None
-            self.S = None
-            
         # removes the processed kwargs 
         for kw in processed:
             kwargs.pop(kw)
-- 
2.43.0


From c4203db4fe9aed0e3bb3d602f08236f4011b8d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 063/134] fix: rfCircuit.getS params leave stale results in sub
 circuits sharing an object

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 8b4b0c8..61b0de2 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1294,7 +1294,7 @@ class rfCircuit(rfBase):
                     if blkID in self.blocks and hasattr(
                                            self.blocks[blkID]['object'], 'set'):
                         if self.blocks[blkID]['object'].set(**sdict):
-                            self.S = None
+                            self._unsolve()
                 
                 if f != self.f or self.S is None or self.flags != flags:
                     
-- 
2.43.0


From 2fe9778c0280a8f1b76accad09cd582c0c61aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 064/134] fix: rfCircuit.set of a nested attribute fails at log
 level DEBUG

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 61b0de2..f5f4530 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1242,7 +1242,7 @@ class rfCircuit(rfBase):
             
             attr = [kw for kw in val][0]
             debug and logident(
-                f'{obj.Id}.{attr} -> {getattr(obj,attr)}'
+                f'{obj.Id}.{attr} -> {getattr(obj, attr, val[attr])}'
             )
                        
         # removes the processed kwargs 
-- 
2.43.0


From 3e4a64cd766900b5850fc3f77705c3589f1ef7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 065/134] fix: rfCircuit.addblock fails at log level DEBUG for
 an array

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f5f4530..8eb7227 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -558,7 +558,7 @@ class rfCircuit(rfBase):
         _debug_ = logit['DEBUG'] 
         _debug_ and tLogger.debug(ident(
             f'> [circuit.addblock] '
-            f'name= {name}, RFobj= {RFobj.Id}, '
+            f'name= {name}, RFobj= {getattr(RFobj, "Id", type(RFobj).__name__)}, '
             f'ports= {ports}, params={params}, kwargs= {kwargs}',
             1
         ))
-- 
2.43.0


From 2ad484614ccee0ee2bc976c397829beed88c3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 066/134] fix: rfCircuit.addblock empties or shares the port
 mapping of the caller

---
 src/pyRFtk/rfCircuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 8eb7227..1111303 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -623,6 +623,7 @@ class rfCircuit(rfBase):
         if hasattr(RFobj,'ports'):
             ports = {} if ports is None else ports
             if isinstance(ports, dict):
+                ports = dict(ports)
                 # remap port names (note: empty dict pulls the object's portnames)
                 oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                 # possibly the user supplied non-existing port names
@@ -641,7 +642,7 @@ class rfCircuit(rfBase):
                      'attribute. Therfore a dict port mapping cannot be used.')
                 
             elif isinstance(ports, list):
-                oports = ports
+                oports = list(ports)
     
             elif isinstance(ports, str):
                 oports = [ports % k for k in range(1,N+1)]
-- 
2.43.0


From db72630856d594473f3ce0b786e33312f35a064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 067/134] fix: rfCircuit.addblock KeyError when a replaced
 block has another number of ports

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 1111303..223d20d 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -603,7 +603,7 @@ class rfCircuit(rfBase):
             if len(RFobj) != len(self.blocks[name]['object']):
                 raise ValueError(
                     f'{whoami(__package__)}: [update {name}] number of ports mismatch: ' 
-                    f'existing {len(self.blocks["object"])}, new {len(RFobj)}')
+                    f'existing {len(self.blocks[name]["object"])}, new {len(RFobj)}')
             
             #TODO: maybe some other checks are in order / necessary
             
-- 
2.43.0


From aeae2d97b1aa87b08761d87dd1f7fd777da981d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 068/134] fix: replacing a nested block overwrites the params
 of its container

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 223d20d..ecb7a05 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -592,7 +592,7 @@ class rfCircuit(rfBase):
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
             self.blocks[name]['object'] = subblockobj
             if '.' not in subblock:
-                self.blocks[name]['params'] = params
+                subblockobj.blocks[subblock]['params'] = params
                 
             _debug_ and logident(
                 f'< [circuit.addblock] (replaced at a deeper level)', -1
-- 
2.43.0


From c4887cbb83e1818d4f1ee173687e4fde82c2404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 069/134] fix: rfCircuit shares the list Portnames of the
 caller

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index ecb7a05..19bd135 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -77,7 +77,7 @@ class rfCircuit(rfBase):
         sNp = kwargs.pop('sNp', None)
         
         # why Portnames ? ports is processed already by rfBase
-        self.Portnames = kwargs.pop('Portnames', [])
+        self.Portnames = list(kwargs.pop('Portnames', []))
         
         if kwargs and type_rfCircuit:
             msg = f'unprocessed kwargs: {", ".join([kw for kw in kwargs])}'
-- 
2.43.0


From 3510b6b24a254a63ee7ac3e1b187c70fd210ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 070/134] fix: the port positions of a rfCircuit do not follow
 the order of Portnames

---
 src/pyRFtk/rfCircuit.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 19bd135..fd3581d 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -987,6 +987,18 @@ class rfCircuit(rfBase):
             f'< [circuit.terminate]', -1
         ))
 
+    #===========================================================================
+    #
+    # _ s o r t p o r t s
+    #
+    def _sortports(self):
+        """puts the external ports (and their positions) in the order of Portnames
+        if these are indeed the external ports
+        """
+        if sorted(self.Portnames) == sorted(self.ports):
+            self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
+            self.ports = self.Portnames
+    
     #===========================================================================
     #
     # e x t S
@@ -1027,7 +1039,7 @@ class rfCircuit(rfBase):
                                 f'in list of announced port names'
                             )
                 # use external port ordering
-                self.ports = self.Portnames
+                self._sortports()
                 
             else:
                 self.Portnames = self.ports                   
-- 
2.43.0


From 5a3a7009ff07a8e5a2d2fc9abab12aa7a3a00bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 071/134] fix: a rfCircuit with Portnames that was not yet
 solved is added with its ports in the wrong order

---
 src/pyRFtk/rfCircuit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index fd3581d..f4715cf 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -607,6 +607,9 @@ class rfCircuit(rfBase):
             
             #TODO: maybe some other checks are in order / necessary
             
+            if hasattr(RFobj, '_sortports'):
+                RFobj._sortports()
+            
             self.blocks[name]['object'] = RFobj
             
             _debug_ and tLogger.debug(ident(
@@ -615,6 +618,10 @@ class rfCircuit(rfBase):
             return
                 
         
+        # if the RFobj has a requested port order it must be used from now on
+        if hasattr(RFobj, '_sortports'):
+            RFobj._sortports()
+            
         # RFobj must have len method (this is also true for an nd.array
         #
         N = len(RFobj)
-- 
2.43.0


From dd97c14fce1adcdc8fecd304ec307c0fd9f4473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 072/134] fix: a copy of a solved circuit fails when a port is
 terminated

---
 src/pyRFtk/rfBase.py | 9 +++++----
 src/pyRFtk/rfGTL.py  | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index ab326dd..cffe1f7 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -189,17 +189,18 @@ class rfBase():
     # c o p y ,  _ _ c o p y  _ _ ,   _ _ d e e p c o p y _ _
     #
     def copy(self):
-        return self.__deepcopy__(self)
+        return self.__deepcopy__()
     
     def __copy__(self):
-        return self.__deepcopy__(self)
+        return self.__deepcopy__()
     
-    def __deepcopy__(self, memo=None):                       # @UnusedVariable
+    def __deepcopy__(self, memo=None):
+        memo = {} if memo is None else memo
         other = type(self)(*self.args, **self.kwargs)
         for attr, val in self.__dict__.items():
             try:
                 # print(f'copying {attr}')
-                other.__dict__[attr] = copy.deepcopy(val)
+                other.__dict__[attr] = copy.deepcopy(val, memo)
             except:
                 print(f'{whoami(__package__)}: could not deepcopy {attr}')  # @UndefinedVariable
                 raise
diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 36e5c34..f14a4b7 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -352,7 +352,8 @@ class rfGTL(rfCircuit):
     def __copy__(self):
         return self.__deepcopy__()
     
-    def __deepcopy__(self, memo={}):
+    def __deepcopy__(self, memo=None):
+        memo = {} if memo is None else memo
         _debug_ = logit['DEBUG']
         _debug_ and logident('>', printargs=True)
         
@@ -361,7 +362,7 @@ class rfGTL(rfCircuit):
         for attr, val in self.__dict__.items():
             try:
                 _debug_ and logident(f'copy {attr}')
-                other.__dict__[attr] = deepcopy(val)
+                other.__dict__[attr] = deepcopy(val, memo)
             except:
                 print(f'{whoami(__package__)}: failed to deepcopy {attr}')  # @UndefinedVariable
                 raise
-- 
2.43.0


From 40293f38e0e2c772de50b6fa0ab562b7dfd0cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 073/134] fix: rfCircuit.Solution fails or mixes up the ports
 of nested circuits with renamed ports

---
 src/pyRFtk/rfCircuit.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f4715cf..949b8e4 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1622,15 +1622,8 @@ class rfCircuit(rfBase):
                     # -> build the excitation to pass on to the Solution method.    
                     
                     Ek = {}
-                    for pobj in obj.ports:
-                        try:
-                            Ek[pobj] = self.tSol[f'{blkID}.{pobj}'][2]
-                            # print(f'[OK] {blkID}.{pobj} -> {Ek[pobj]:7.3f}')
-                        except KeyError:
-                            for k, s in self.tSol.items():
-                                print(f'[EE] {k:30s} -> {s[2]:7.3f}')
-                            print(f'{whoami(__package__)}')  
-                            raise
+                    for pobj, pblk in zip(obj.ports, blk['ports']):
+                        Ek[pobj] = self.tSol[f'{blkID}.{pblk}'][2]
     
                     if _debug_:
                         tLogger.debug(ident(f'  port excitations:'))
@@ -1646,7 +1639,8 @@ class rfCircuit(rfBase):
                     
                     # collect and add the result to tSol
                     for tnode, tval in tSolr.items():
-                        self.tSol[f'{blkID}.{tnode}'] = tval
+                        # the nodes at this level have precedence
+                        self.tSol.setdefault(f'{blkID}.{tnode}', tval)
                         
         _debug_ and tLogger.debug(ident('< [cicuit.Solution]',-1))
         return self.tSol
-- 
2.43.0


From c01774a36cb0f4cd891af60eaa2c53b2b2596bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 074/134] fix: rfCircuit.getS returns a reference to its own
 result

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 949b8e4..143d443 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1348,7 +1348,7 @@ class rfCircuit(rfBase):
             if Zbase and Zbase != self.Zbase:
                 M = ConvertGeneral(Zbase,M,self.Zbase)
                 
-            return M
+            return np.array(M) # and not a reference to self.S
         # - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - 
     
         Ss = []
-- 
2.43.0


From d34473b98961e25ea1a2d8258b4b1ad3f1df315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 075/134] fix: rfCircuit.getpos and maxV fail for a new port
 that is connected or terminated later on

---
 src/pyRFtk/rfCircuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 143d443..3401ab9 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -766,6 +766,8 @@ class rfCircuit(rfBase):
         try:  
             kp =block['ports'].index(node)
         except:
+            if node in getattr(obj, 'nodes', {}):
+                return relpos + obj.getpos(obj.nodes[node])
             kp = obj.ports.index(node)
             
         return relpos + obj.xpos[kp]
@@ -812,6 +814,7 @@ class rfCircuit(rfBase):
             # here we need to make assumptions on the position of the new port
             # -> we take the position of the first port in the list
             self.xpos.append(self.getpos(oldports[0]))
+            self.nodes[p] = oldports[0]
             
         _debug_ and tLogger.debug(ident(f'self.ports = {", ".join(self.ports)}', 0))
         
-- 
2.43.0


From e43052b3228058dc2405a4b9dca99d6f28bb7798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 076/134] fix: rfCircuit.resolve_xpos always fails

---
 src/pyRFtk/rfCircuit.py | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 3401ab9..098676e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1655,30 +1655,7 @@ class rfCircuit(rfBase):
     def resolve_xpos(self):
         """tries to build and xpos based on the underlying blocks' information
         """
-        rXpos = [None] * len(self.ports)
-        
-        for _kp, _p in enumerate(self.ports):
-            _x = rXpos[_kp]
-            if _x is not None:
-                continue
-            blkID, blkport = (_p.split('.',1) + [None])[:2]
-            if blkport is not None:
-                obj = self.blocks[blkID]['object']
-                try:
-                    rXpos[_kp] = self.blocks[blkID]['xpos'][obj.ports.index(blkport)]
-                except ValueError:
-                    raise ValueError(
-                        f'rfCircuit.resolve_xpos: port {blkport} is not in block {blkID}'
-                    )
-                except Exception as e:
-                    raise RuntimeError(
-                        f'rfCircuit.resolve_xpos: while checking for {_p} {e} occured'
-                    )
-                
-            if rXpos[_kp] is None:
-                rXpos[_kp] = 0.
-            
-        self.xpos = rXpos
+        self.xpos = [self.getpos(_p) for _p in self.ports]
         
     #===========================================================================
     #
-- 
2.43.0


From 781b5116feb02e0c4c331a9072303ef154a22940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 077/134] fix: rfCircuit cannot locate or print a block that is
 an array

---
 src/pyRFtk/rfCircuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 098676e..c2ee81a 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -197,7 +197,8 @@ class rfCircuit(rfBase):
                         s +=  f'|   {blkID}: \n'
                         #fixme: embellish this type of block
                         mx = max([len(_p) for _p in blk['ports']])
-                        for _p, _x in zip(blk['ports'], blk['xpos']):
+                        for _p in blk['ports']:
+                            _x = blk['xpos']
                             s += f'|   |   {_p:{mx+1}s} @ {_x:7.4f}m\n'
                         s += f'|   |\n'
 
@@ -770,7 +771,8 @@ class rfCircuit(rfBase):
                 return relpos + obj.getpos(obj.nodes[node])
             kp = obj.ports.index(node)
             
-        return relpos + obj.xpos[kp]
+        # a block that is an array has no positions of its own
+        return relpos + (obj.xpos[kp] if hasattr(obj, 'xpos') else 0.)
                 
     #===========================================================================
     #
-- 
2.43.0


From effdcfab1e7897e192bdfc29ef39ea834862e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 078/134] fix: rfCircuit.maxV puts all the ports of a block at
 the position of its first port

---
 src/pyRFtk/rfCircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index c2ee81a..262de5b 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1832,6 +1832,8 @@ class rfCircuit(rfBase):
                         xpos = [xpos + obj.xpos[_kp] for _kp in range(len(obj))]
                         if xs[-1] != xs[0]:
                             xst = xpos[0]+(xs-xs[0])*(xpos[1]-xpos[0])/(xs[-1]-xs[0])
+                        elif len(xs) == len(xpos): # one value per port
+                            xst = np.array(xpos)
                         else:
                             xst = xpos[0] * np.ones(xs.shape)
                         VSW = (xst, VSW[1])
-- 
2.43.0


From 51366c3eab7df939d90620173fef9fc3416a4108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 079/134] fix: rfCircuit(sNp=...) misspells touchstone

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 262de5b..ce557ea 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -107,7 +107,7 @@ class rfCircuit(rfBase):
         self.S = None # set in rfBase to None
         
         if sNp:
-            self.sNp = rfObject(touchtone=sNp)
+            self.sNp = rfObject(touchstone=sNp)
         
         _debug_ and logident('<')
     
-- 
2.43.0


From 8618804369628b4e906bb4537a68d388078c8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 080/134] fix: a rejected rfCircuit.connect leaves the circuit
 partially modified

---
 src/pyRFtk/rfCircuit.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index ce557ea..4f9c1b0 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -809,6 +809,18 @@ class rfCircuit(rfBase):
         oldports = [p for p in ports if ('->'+p) in self.waves]
         _debug_ and tLogger.debug(ident(f'old ports: {", ".join(oldports)}', 0))
         
+        if not oldports or len(set(ports)) != len(ports):
+            raise ValueError(
+                f'{whoami(__package__)}: expecting different ports of which at '
+                'least one exists'
+            )
+        
+        for p in oldports:
+            if p not in self.ports:
+                raise ValueError(
+                    f'{whoami(__package__)}: port {p} is already in use'
+                )
+        
         for p in newports:
             self.waves.append('->'+p)
             self.waves.append('<-'+p) 
-- 
2.43.0


From 6990bff1d3659c51527574df9133caf5d11da43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 081/134] fix: rfCircuit.deembed loses the port positions and a
 rejected one modifies the circuit

---
 src/pyRFtk/rfCircuit.py | 57 ++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 4f9c1b0..6a063f2 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -413,9 +413,6 @@ class rfCircuit(rfBase):
             1
         ))
 
-        self.S = None 
-        self.invM = None
-        
         if isinstance(IntPorts, dict):
             IntPorts = [( dp, p) for dp, p in IntPorts.items()] 
         
@@ -441,6 +438,28 @@ class rfCircuit(rfBase):
                 )
             
         
+        ports = list(self.ports)
+        for dp, ip in IntPorts:
+            if f'->{ip}' in self.waves:
+                raise ValueError(
+                    f'{whoami(__package__)}: (internal) port {ip} already exists '
+                )
+            if dp not in ports:
+                raise ValueError(
+                    f'{whoami(__package__)}: (external) port {dp} does not exist'
+                )
+            ports[ports.index(dp)] = ip
+            
+        for p in [p for t in ExtPorts for p in t]:
+            if p not in ports:
+                raise ValueError(
+                    f'{whoami(__package__)}: (external) port {p} does not exist'
+                )
+            ports.remove(p)
+        
+        self.S = None 
+        self.invM = None
+        
         # add the columns for the internal ports
         
         self.M = np.hstack((
@@ -453,20 +472,12 @@ class rfCircuit(rfBase):
           
         for dp, ip in IntPorts:
             
-            if ip in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (internal) port {ip} already exists '
-                )
-            
             # create the new internal port
             self.waves += [f'->{ip}', f'<-{ip}']
             self.ports.append(ip)
+            self.xpos.append(self.xpos[self.ports.index(dp)])
+            self.nodes[ip] = dp
                         
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
             
@@ -482,7 +493,9 @@ class rfCircuit(rfBase):
             self.M[-1, len(self.waves)-2] = -1
             
             # remove the deembeded port
-            self.ports.pop(self.ports.index(dp))
+            _kp = self.ports.index(dp)
+            self.ports.pop(_kp)
+            self.xpos.pop(_kp)
             
             # update the equation types
             self.eqns.append(f'Di {dp}')
@@ -491,16 +504,6 @@ class rfCircuit(rfBase):
         
         for dp, ep in ExtPorts:
             
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
-            if ep not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {ep} does not exist'
-                )
-                
             # add two rows to self.M
             self.M = np.vstack((
                 self.M, 
@@ -523,8 +526,10 @@ class rfCircuit(rfBase):
             self.eqns.append(f'De {ep}')
             
             # now we need to remove the remaining ports of the port list
-            self.ports.pop(self.ports.index(dp))
-            self.ports.pop(self.ports.index(ep))
+            for p in (dp, ep):
+                _kp = self.ports.index(p)
+                self.ports.pop(_kp)
+                self.xpos.pop(_kp)
                         
         _debug_ and tLogger.debug(ident(
             f'< [circuit.deembed]', -1
-- 
2.43.0


From e3d0320d32c6357ad7edd377d8bee8adadfcb124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 082/134] fix: rfGTL does not create arc objects

---
 src/pyRFtk/rfGTL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index f14a4b7..d898e71 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -186,10 +186,10 @@ class rfGTL(rfCircuit):
                 # rfRLC object                       
                 # obsolete -- xposlist[blk] = [xpos, xpos]
                 RFobj = rfRLC(Zbase=self.Zbase,**tkwargs)
-            elif len(kwargs) == 1 and 'Larc' in kwargs:
+            elif 'Larc' in tkwargs:
                 # rfArcObject
                 # obsolete -- xposlist[blk] = [xpos, xpos]
-                RFobj = rfArcObj(kwargs['Larc'])
+                RFobj = rfArcObj(Zbase=self.Zbase, **tkwargs)
             else:
                 # rfTRL object
                 # obsolete -- xposlist[blk] = [xpos, xpos + tkwargs['L']]
-- 
2.43.0


From 1c5d817ccba59a6d901da78c0daffa2056436894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 083/134] fix: rfCircuit.Solution, solve and maxV of a circuit
 that was not yet solved ignore Portnames

---
 src/pyRFtk/rfCircuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 6a063f2..75e27b3 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1483,6 +1483,7 @@ class rfCircuit(rfBase):
         Zbase = self.Zbase if Zbase is None else Zbase
         
         # incident voltage waves @  Zbase to the circuits feed ports
+        self._sortports()
         Ea = [E[p] for p in self.ports]
         if _debug_ :
             tLogger.debug(ident(f'self.ports = {self.ports}'))
@@ -1550,6 +1551,7 @@ class rfCircuit(rfBase):
         # incident voltage waves @  Zbase to the circuits feed ports
         # Ea is a list of excitations in the order of definition of the 
         #    ports of the object
+        self._sortports()
         Ea = [E[p] for p in self.ports]
         
         # reflected voltage waves @ Zbase from the circuit's feed ports
@@ -1717,6 +1719,8 @@ class rfCircuit(rfBase):
         #     _debug_ and logident(msg)
         #     raise ValueError(f'{whoami(__package__)}: {msg}')
             
+        self._sortports()
+        
         ppos = dict([(f'{Id}.{_p}', 
                       (self.xpos[_kp] if isinstance(self.xpos[_kp], (float,int)) else 0.) + relpos)
                       for _kp, _p in enumerate(self.ports)])
-- 
2.43.0


From defe262525526e858df8d5d749dabbdf274c1b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 084/134] fix: rfCircuit.getpos returns the position of an
 inner node for a port of the same name

---
 src/pyRFtk/rfCircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 75e27b3..e3d120c 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -763,6 +763,8 @@ class rfCircuit(rfBase):
                 block = obj.blocks[blk]
                 relpos += block['xpos']
                 obj = block['object']
+                if node in block['ports']: # possibly also the name of a node
+                    break                  # inside the block
             except AttributeError: # because obj is not a circuit (= no .blocks)
                 node = onode
                 break
-- 
2.43.0


From 002066f241ad84e821584be1d9311d41c9af2f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 085/134] fix: WriteTSF takes the frequencies of a rfObject
 that is not in Hz for Hz

---
 src/pyRFtk/WriteTSF.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 3623972..34a4487 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -103,8 +103,11 @@ def WriteTSF(object, path2tsf=None,
     tnumfmt = f'%{num_format[1]} %{num_format[2]} '
     leadspaces = ' '*(1 + int(num_format[0].split('.')[0]))
     
+    # frequencies are in Hz unless the object has another frequency unit
+    oscale = getattr(object, 'fscale', 1.)
+    
     for k,fk in enumerate(fs):
-        s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
+        s += (f'%{num_format[0]}' % (fk * oscale / fscale)) + ' '
         d = convert(object.getS(fk, Zbase=zref), zref)
         if nports == 2: # touchstone convention for 2-ports
             d = np.transpose(d)
-- 
2.43.0


From 879e30567dc13bf3f5d4c03302813d9720a21fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 086/134] fix: WriteTSF fails when the format does not mention
 the frequency unit

---
 src/pyRFtk/WriteTSF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 34a4487..2d3e99a 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -46,8 +46,9 @@ def WriteTSF(object, path2tsf=None,
         
     s += '\n# %s \n\n' % tsf_format
     
+    # note: GHZ is the touchstone default
     fscale = {'HZ': 1e0, 'KHZ':1e3,'MHZ':1e6, 'GHZ':1e9, 'THZ':1e12}[
-        re.findall('^.*?([KMG]?HZ).*$',tsf_format.upper())[0]]
+        (re.findall('^.*?([KMG]?HZ).*$',tsf_format.upper()) + ['GHZ'])[0]]
 
     try:
         zref = float(
-- 
2.43.0


From 498317fff34a0be8070331dc78bded725decf833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 087/134] fix: tsf2str splits the data of 2-ports over two
 lines

---
 src/pyRFtk/rfBase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index cffe1f7..5dff741 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -433,6 +433,8 @@ class rfBase():
                         if kc is (CN-1):
                             s += ' !    row %d' % (kr+1)
                         s += eoln+' '*freq_fmt_len
+                if len(self) == 2 and kr == 0:
+                    continue # touchstone 2-port data is on a single line
                 s += eoln
                 if kr is not len(self)-1:
                     s += ' '*freq_fmt_len
-- 
2.43.0


From 8338d77ee91e85666e263212c28b14d96ad415c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 088/134] fix: the ports written for a circuit that was not yet
 solved may not be in the order of its data

---
 src/pyRFtk/WriteTSF.py | 20 ++++++++++++--------
 src/pyRFtk/rfBase.py   | 12 ++++++------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 2d3e99a..6d24189 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -74,12 +74,6 @@ def WriteTSF(object, path2tsf=None,
                 + ['S'])[0]
     convert = {'S': lambda S, Z0: S, 'Z': Z_from_S, 'Y': Y_from_S}[datatype]
     
-    try:
-        if len(object.ports) > 0 :
-            s += '!PORTS ' + ', '.join(object.ports) + '\n\n'
-    except AttributeError:
-        pass
-    
     if len(fs) == 0:
         
         # try an find a way to a list of meaning full frequencies
@@ -93,6 +87,16 @@ def WriteTSF(object, path2tsf=None,
         raise ValueError(
             'could not find list of frequencies in object and no list was supplied'
             )
+    
+    # note: solving a circuit may sort its ports
+    Ss = [object.getS(fk, Zbase=zref) for fk in fs]
+    
+    try:
+        if len(object.ports) > 0 :
+            s += '!PORTS ' + ', '.join(object.ports) + '\n\n'
+    except AttributeError:
+        pass
+    
     nports = len(object)
     
     if num_format is None:
@@ -107,9 +111,9 @@ def WriteTSF(object, path2tsf=None,
     # frequencies are in Hz unless the object has another frequency unit
     oscale = getattr(object, 'fscale', 1.)
     
-    for k,fk in enumerate(fs):
+    for fk, Sk in zip(fs, Ss):
         s += (f'%{num_format[0]}' % (fk * oscale / fscale)) + ' '
-        d = convert(object.getS(fk, Zbase=zref), zref)
+        d = convert(Sk, zref)
         if nports == 2: # touchstone convention for 2-ports
             d = np.transpose(d)
         for kr in range(nports):
diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 5dff741..bc1f5b9 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -373,6 +373,12 @@ class rfBase():
         
         tfmt = '# ' + ' '.join(fmts)
             
+        # note: solving a circuit may sort its ports
+        if fs is None:
+            fs = self.fs
+            Ss = self.Ss
+        else:
+            Ss = self.getS(fs)
 
         eoln = '\n'
         
@@ -390,12 +396,6 @@ class rfBase():
         s += f'!PORTS {", ".join(self.ports)}'+eoln
         s += eoln
 
-        if fs is None:
-            fs = self.fs
-            Ss = self.Ss
-        else:
-            Ss = self.getS(fs)
-            
         Ms = {'S' : ( lambda S_: ConvertGeneral(Zref, S_, self.Zbase) ),
               'Z' : ( lambda S_: Z_from_S(S_, self.Zbase) ),
               'Y' : ( lambda S_: Y_from_S(S_, self.Zbase) )        
-- 
2.43.0


From 427cd8916624af03bde51a5fc614259e4e3f8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 089/134] fix: rfObject.read_tsf leaves unit, reference
 impedance, ports and data inconsistent

---
 src/pyRFtk/rfObject.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index a80bf52..1001d34 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -676,10 +676,23 @@ class rfObject():
     #  r e a d _ t s f 
     #
     def read_tsf(self, src, **kwargs):
+        # unless requested otherwise the data is in the units of the object
+        kwargs = dict({'Zbase':self.Zbase, 'funit':self.funit}, **kwargs)
         r = ReadTSF(src, **kwargs)
+        
+        if self.ports and len(self.ports) != r['Ss'].shape[-1]:
+            raise ValueError(
+                f'rfObject.read_tsf: the touchstone has {r["Ss"].shape[-1]} ports '
+                f'but the object has {len(self.ports)} ports')
+        
+        if FUNITS[kwargs['funit'].upper()] != self.fscale:
+            self.funit = kwargs['funit']
+            self.fscale = FUNITS[self.funit.upper()]
+        
         self.interpOK = False
         self.fs = r['fs']   # * (FUNITS[r['funit'].upper()] 
                             #  / FUNITS[self.funit.upper()])
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
         self.Ss = r['Ss']
         self.ports = r['ports'] if not self.ports else self.ports
         self.Zbase = r['Zbase']
-- 
2.43.0


From eb2c260161706f48d3144b3fdb03cb2810b2d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 090/134] fix: ReadTSF fails for a 1-port with a port impedance
 comment and R

---
 src/pyRFtk/ReadTSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 4f9335b..d813b2d 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -335,8 +335,8 @@ def ReadTSF(src, **kwargs):
                      ' Complex Port Impedances'
                 )
                 
-            Gms = [np.diag(Gmk) for Gmk in Gms]
-            Zcs = [np.diag(Zck) for Zck in Zcs]
+            Gms = np.array([np.diag(Gmk) for Gmk in Gms])
+            Zcs = np.array([np.diag(Zck) for Zck in Zcs])
         
     # get the frequencies and scale for the units
     fs = np.array(fs, dtype=float) * fscale(funit, Tfunit)
-- 
2.43.0


From 2f40a65ecbb8b2267f0df3c709c3641085fb4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 091/134] fix: rfTRL takes a numpy integer dx for a step in m

---
 src/pyRFtk/rfTRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 9b4f068..8f3e1e4 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -309,7 +309,7 @@ class rfTRL():
         s += f'| Zbase: {self.Zbase} Ohm \n'
         s += f'| ports: {self.ports} \n'
         s += f'| length: {self.L:.3f}m; '
-        if isinstance(self.dx, int):
+        if isinstance(self.dx, (int, np.integer)):
             s += f'dx: {self.dx} pts per wavelength \n'
         else:
             s += f'dx: {self.dx:.3f}m \n'
@@ -426,7 +426,7 @@ class rfTRL():
         
         if f not in self.solved:
             
-            if isinstance(self.dx, int): # step = fraction of wavelength
+            if isinstance(self.dx, (int, np.integer)): # step = fraction of wavelength
                 
                 if self.constant:
 
-- 
2.43.0


From 1de5e09aced26d81a14c529afd0e2d062183581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 092/134] fix: TLresolver takes mu or eps for 1 when they
 follow from LTL or CTL and the diameters

---
 src/pyRFtk/resolveTLparams.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index a155921..8a136de 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -238,6 +238,12 @@ class TLresolver():
             ('etar', ('Z0TL','ID','OD'), 0., lambda w, x:                    #38
                 self.Z0TL(w,x) / (eta0coax * np.log(self.OD(w,x)/self.ID(w,x)))
             ),
+            ('mur', ('LTL','ID','OD'), 0., lambda w, x:
+                2*np.pi * self.LTL(w,x) / (mu0 * np.log(self.OD(w,x)/self.ID(w,x)))
+            ),
+            ('epsr', ('CTL','ID','OD'), 0., lambda w, x:
+                self.CTL(w,x) * np.log(self.OD(w,x)/self.ID(w,x)) / (2*np.pi * e0)
+            ),
             #-- ------------------------------------------------------------- --
             ('A', ('AdB',), 0., lambda w, x:                                 #39
                 np.abs(self.AdB(w,x)) * np.log(10) / 20
-- 
2.43.0


From 0b17b2661800144f6ffb9746bebad33462b1b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 093/134] fix: block parameters of an arc object are ignored

---
 src/pyRFtk/rfBase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index bc1f5b9..9353f33 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -283,6 +283,8 @@ class rfBase():
         fs = self.fs if fs is None else fs
         _debug_ and logident(f'fs={fs}')
         
+        self.set(**kwargs.pop('params', {}))
+        
         if hasattr(fs,'__iter__'):
             Ss = [self.get1S(fk) for fk in fs]
             
-- 
2.43.0


From e4dd98270b82c25ed8c78f32815f3398a590e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 094/134] fix: rfRLC fails for elements that are an open or a
 short circuit

---
 src/pyRFtk/rfRLC.py | 75 ++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 49 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index da59c42..8eaa6d9 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -184,66 +184,43 @@ class rfRLC():
         if Zbase is None:
             Zbase = self.Zbase
         
-        for p in ['Rs','Ls','Cs','Rp','Lp','Cp']:
-            setattr(self, p, params.get(p, getattr(self, p)))
+        self.set(**params)
             
         def get1S(f):
             self.f = f
             
-            if f != 0:
-                jw = 2j * np.pi * f
-                zs = (self.Rs + jw * self.Ls + 1/jw/self.Cs)/Zbase
-                yp = (1/self.Rp + 1/jw/self.Lp + jw * self.Cp)*Zbase
+            jw = 2j * np.pi * f
+            
+            # (s) -- OO --+-- (p)
+            isopen = self.Cs == 0 or (f == 0 and self.Cs != +np.inf)
+            
+            # (s) --------+-- (p)
+            #             |
+            #            Gnd
+            isshort = (self.Rp == 0 or self.Lp == 0 
+                       or (f == 0 and self.Lp != +np.inf))
+            
+            if not isopen:
+                zs = (self.Rs + jw * self.Ls 
+                      + (1/jw/self.Cs if self.Cs != +np.inf else 0))/Zbase
                 
+            if not isshort:
+                yp = (1/self.Rp + jw * self.Cp 
+                      + (1/jw/self.Lp if self.Lp != +np.inf else 0))*Zbase
+            
+            if isopen or isshort: # the ports are isolated from each other
+                self.S = np.array(
+                    [[+1. if isopen else (zs - 1)/(zs + 1), 0.],
+                     [0., -1. if isshort else (1 - yp)/(1 + yp)]],
+                    dtype=complex)
+                
+            else:
                 self.S = np.linalg.inv(
                             [[     1   , 1 + yp],
                              [-(1 + zs),   1   ]]
                         ) @ np.array(
                             [[     1   , 1 - yp],
                              [  1 - zs ,  -1   ]])
-            else:
-                if self.Cs == +np.inf:
-                    zs = self.Rs/Zbase
-                    if self.Lp == +np.inf:
-                        # (s) -- Rs --+-- (p)
-                        #             |
-                        #             Rp
-                        #             |
-                        #            Gnd
-                        yp = Zbase/self.Rp
-                        self.S = np.linalg.inv(
-                                [[     1   , 1 + yp],
-                                 [-(1 + zs),   1   ]]
-                            ) @ np.array(
-                                [[     1   , 1 - yp],
-                                 [  1 - zs ,  -1   ]])
-                    else:
-                        # (s) -- Rs --+-- (p)
-                        #             |
-                        #            Gnd
-                        self.S = np.array(
-                            [[ (self.Rs-Zbase)/(self.Rs + Zbase) , 0j ],
-                             [               0j                  , -1 ]],
-                            dtype=complex)                   
-                else:
-                    if self.Lp == +np.inf:
-                        # (s) -- OO --+-- (p)
-                        #             |
-                        #             Rp
-                        #             |
-                        #            Gnd
-                        if self.Rp != +np.inf:
-                            rcp = (self.Rp - Zbase) / (self.Rp + Zbase)
-                        else:
-                            rcp = +1
-                        self.S = np.array(
-                            [[1, 0j],[0j, rcp ]],
-                            dtype=complex)
-                    else:
-                        # (s) -- OO --+-- (p)
-                        #             |
-                        #            Gnd
-                        self.S = np.array([[1, 0j], [0j, -1]], dtype=complex)
             return self.S
         
         Ss = []
-- 
2.43.0


From dcd089940b85d7ad6dff3215cddee84a1676a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 095/134] fix: objects read from a file cannot be copied when
 it is gone

---
 src/pyRFtk/rfBase.py | 2 +-
 src/pyRFtk/rfGTL.py  | 4 ++--
 src/pyRFtk/rfTRL.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 9353f33..648a5dd 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -196,7 +196,7 @@ class rfBase():
     
     def __deepcopy__(self, memo=None):
         memo = {} if memo is None else memo
-        other = type(self)(*self.args, **self.kwargs)
+        other = type(self).__new__(type(self)) # (there may be no files to read anymore)
         for attr, val in self.__dict__.items():
             try:
                 # print(f'copying {attr}')
diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index d898e71..9ed83b8 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -357,8 +357,8 @@ class rfGTL(rfCircuit):
         _debug_ = logit['DEBUG']
         _debug_ and logident('>', printargs=True)
         
-        # other = type(self)(self.path2model, self.objkey, self.variables, **self.kwargs) # because rfGTL object has a path2model
-        other = type(self)(*self.args, **self.kwargs) # because rfGTL object has a path2model
+        # the rfGTL object has a path2model but the file may have changed or be gone
+        other = type(self).__new__(type(self))
         for attr, val in self.__dict__.items():
             try:
                 _debug_ and logident(f'copy {attr}')
diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 8f3e1e4..961c5c3 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -280,7 +280,7 @@ class rfTRL():
         debug = logit['DEBUG']
         debug and tLogger.debug(ident(f'> circuit.__deepcopy__ {self.Id}', 1))
         
-        other = type(self)(*self.args, **self.kwargs)
+        other = type(self).__new__(type(self)) # (there may be no files to read anymore)
         for attr, val in self.__dict__.items():
             try: 
                 debug and tLogger.debug(ident(f'copy {attr}'))
-- 
2.43.0


From 4ee659f038c329c0628aecb6fd3947c95604caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 096/134] fix: rfGTL takes the module for the class of the arc
 objects

---
 src/pyRFtk/rfGTL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 9ed83b8..d0ced1b 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -13,7 +13,8 @@ import warnings
 from copy import deepcopy
 
 
-from . import rfCircuit, rfTRL, rfRLC, rfObject, rfArcObj
+from . import rfCircuit, rfTRL, rfRLC, rfObject
+from .rfArcObj import rfArcObj
 from .whoami import whoami 
 from .config import logit, tLogger, ident, _newID, logident
 
-- 
2.43.0


From a581e586258a80f290f4065034766c702179ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 097/134] fix: pickling a rfObject without data loses the shape
 of its table

---
 src/pyRFtk/rfObject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 1001d34..cc3031b 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -277,8 +277,10 @@ class rfObject():
                 self.__dict__[var] = value
         
         # get the arrays back
-        self.fs = np.array(d['fs'])
-        self.Ss = np.array(d['Ss'])
+        # (the shape and the type of an empty list are lost)
+        N = len(self.ports)
+        self.fs = np.array(d['fs'], dtype=float)
+        self.Ss = np.array(d['Ss'], dtype=complex).reshape((-1, N, N) if N else (0, 0, 0))
         self.Zcs = np.array(d['Zcs'])
         self.Gms = np.array(d['Gms'])
 
-- 
2.43.0


From c2be6b075f08af8a59dd1a360d59d65af9c377d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 098/134] fix: ReadTSF returns the list of ports of the caller

---
 src/pyRFtk/ReadTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index d813b2d..092423d 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -425,7 +425,7 @@ def ReadTSF(src, **kwargs):
                 f'ports were supplied as a format string "{Tports}" -> {ports}'))
             
         elif isinstance(Tports, list) and len(Tports) == N:
-            ports = Tports
+            ports = list(Tports)
             debug and tLogger.debug(ident(
                 f'ports were supplied as a list -> {ports}'))
         
-- 
2.43.0


From d2dd1eee0151188f6d19c312bdb50d4b4ca4ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 099/134] fix: blocks and their parameters are shared with the
 caller

---
 src/pyRFtk/rfCircuit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index e3d120c..d04c5fd 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -5,6 +5,7 @@ __updated__ = "2026-05-19 11:11:41"
 import numpy as np
 import matplotlib.pyplot as plt
 import warnings
+from copy import deepcopy
 
 from .ConvertGeneral import ConvertGeneral
 from .printMatrices import strM
@@ -569,6 +570,11 @@ class rfCircuit(rfBase):
             1
         ))
         
+        # the data of the caller is not shared (the rf objects are)
+        params = deepcopy(params)
+        if isinstance(RFobj, (np.ndarray, list, tuple)):
+            RFobj = np.array(RFobj)
+        
         self.S = None
         self.invM = None
         
-- 
2.43.0


From 0d9a368dc62569814d69119d8d4d29e5ba71b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 100/134] fix: rfGTL shares its variables with the caller

---
 src/pyRFtk/rfGTL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index d0ced1b..5fb2288 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -37,7 +37,7 @@ class rfGTL(rfCircuit):
             
         if not hasattr(self,'kwargs'):
             self.kwargs = dict(objkey=objkey, 
-                               variables=variables.copy(),
+                               variables=deepcopy(variables),
                                **kwargs.copy())
         
         Id = kwargs.pop('Id','rfGTL_' + _newID())
@@ -47,7 +47,7 @@ class rfGTL(rfCircuit):
         _debug_ and logident(f'self.Id <- {self.Id}')
         
         self.path2model = path2model
-        self.variables = variables.copy()
+        self.variables = deepcopy(variables)
         # obsolete -- self.kwargs = kwargs.copy()
         
         if objkey == None:
@@ -73,7 +73,7 @@ class rfGTL(rfCircuit):
         self.glovars = self.model.get('variables',{})
         self.locvars = self.model[objkey].get('variables', {})
             
-        self.glovars.update(variables)
+        self.glovars.update(deepcopy(variables))
         self.Portnames = self.model[objkey].get('Portnames',[])
         self.vars = dict(self.locvars)
         # pprint(self.vars)
-- 
2.43.0


From 29f9bcc3e5687c41c33751666a027bf62e3e4a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 101/134] fix: rfObject shares its data with the caller

---
 src/pyRFtk/rfObject.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index cc3031b..a0517a9 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -93,7 +93,9 @@ class rfObject():
             self.args = args
         
         if not hasattr(self,'kwargs'):
-            self.kwargs = kwargs.copy()
+            # (an open file cannot be copied)
+            self.kwargs = dict((kw, val if hasattr(val, 'read') else copy.deepcopy(val))
+                               for kw, val in kwargs.items())
         
         self.Id = kwargs.pop('Id',f'{type(self).__name__}_{_newID()}')
         
@@ -149,6 +151,7 @@ class rfObject():
         _ports = kwargs.get('ports', [])
         if isinstance(_ports, str):
             _ports = _ports.split()
+        _ports = list(_ports) # the lists and dicts of the caller are not shared
         _N = len(_ports)
         
         # If the object was created from an argument (e.g. an S-matrix),
@@ -171,12 +174,12 @@ class rfObject():
         self.Zbase = kwargs.get('Zbase', rcparams['Zbase'])
         self.funit = kwargs.get('funit', rcparams['funit'])
         self.fscale = FUNITS[self.funit.upper()]
-        self.flim = kwargs.get('flim', [0.001, 1000.])
+        self.flim = copy.copy(kwargs.get('flim', [0.001, 1000.]))
         
         self.interp = kwargs.get('interp',rcparams['interp'])
-        self.interpkws = kwargs.get('interpkws',rcparams['interpkws'])
+        self.interpkws = dict(kwargs.get('interpkws',rcparams['interpkws']))
             
-        self.xpos = kwargs.get('xpos', [0.]*self.N)
+        self.xpos = list(kwargs.get('xpos', [0.]*self.N))
                 
         # initialize arrays and stuff
         if not hasattr(self,'fs'):
@@ -332,14 +335,14 @@ class rfObject():
     #
     def __iter__(self):
         for k in range(len(self.fs)):
-            yield self.fs[k], self.Ss[k,:,:]
+            yield self.fs[k], self.Ss[k,:,:].copy()
     
     #===========================================================================
     #
     #  _ _ g e t i t e m _ _
     #
     def __getitem__(self, k):
-        return self.fs[k], self.Ss[k,:,:]
+        return self.fs[k].copy(), self.Ss[k,:,:].copy()
     
     #===========================================================================
     #
@@ -623,7 +626,7 @@ class rfObject():
                 f'does not match shape of S ({S.shape[-1]})')
         
         # self.ports is defined 
-        self.ports = Portnames
+        self.ports = list(Portnames)
         if len(self.xpos) != len(self):
             self.xpos = [0.] * len(self)
         self.interpOK = False
-- 
2.43.0


From 0a1e303b23f563511f6f3e088ee9279a4908060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 102/134] fix: rfTRL shares its data with the caller

---
 src/pyRFtk/rfTRL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 961c5c3..45fdc4a 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -188,7 +188,7 @@ class rfTRL():
         self.L = kwargs.pop('L', 0.)
         self.Zbase = kwargs.pop('Zbase', 50.)
         self.dx = kwargs.pop('dx', 72) # int -> 1/int-th of wavelength 
-        self.odeparams = kwargs.pop('odeparams',{'rtol':1E-12, 'atol':1E-12})
+        self.odeparams = dict(kwargs.pop('odeparams',{'rtol':1E-12, 'atol':1E-12}))
         self.sNp = kwargs.pop('sNp', None)
         self.constant = True
         self.f = np.nan
@@ -562,7 +562,7 @@ class rfTRL():
             if Zbase and Zbase != self.Zbase:
                 M = ConvertGeneral(Zbase,M,self.Zbase)
             
-            return M
+            return np.array(M) # and not a reference to self.S
         
         self.set(**params)
         
@@ -594,7 +594,7 @@ class rfTRL():
             
             _, Vsw, Isw = self.solveVI(f, Vs[0], Is[0])
             
-            self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, E)
+            self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, dict(E))
             
         return copy.deepcopy((self.solved[f]['xs'], 
                               self.solved[f]['VISWs'][(Ahash, Zbase)]))
-- 
2.43.0


From 1fa824103c05c92aa31db86288e09d8a5b07e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 103/134] fix: a rfObject read from an open file cannot be
 copied

---
 src/pyRFtk/rfObject.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index a0517a9..11f869f 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -210,6 +210,10 @@ class rfObject():
                     Tkwargs[kw] = value
             
             self.read_tsf(self.touchstone, **Tkwargs)
+            
+            if hasattr(self.touchstone, 'read'): # (an open file cannot be copied)
+                self.touchstone = getattr(self.touchstone, 'name', None)
+                self.kwargs['touchstone'] = self.touchstone
 
 
         self.interpOK = False
-- 
2.43.0


From f6e4a65a3c139cc240cbfa06d165c712db4d45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 104/134] fix: solve, Solution and maxV of a circuit with a
 touchstone use blocks that were not solved

---
 src/pyRFtk/rfCircuit.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index d04c5fd..6b45fc1 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1310,7 +1310,7 @@ class rfCircuit(rfBase):
     #
     # g e t S 
     #
-    def getS(self, fs, Zbase=None, params={}, flags={}):
+    def getS(self, fs, Zbase=None, params={}, flags={}, sNp=True):
         
         _debug_ = logit['DEBUG'] 
         _debug_ and tLogger.debug(ident(
@@ -1325,7 +1325,7 @@ class rfCircuit(rfBase):
             # fixme: circuit object should not know about gtl object ...
             #        but it does know about sNp...
             
-            if hasattr(self, 'sNp') and flags.get('sNp', True) :
+            if sNp and hasattr(self, 'sNp') and flags.get('sNp', True) :
                 # note this bypasses the solving of the nested RF objects
                 _debug_ and tLogger.debug(ident(f'using sNp'))
                     
@@ -1503,16 +1503,16 @@ class rfCircuit(rfBase):
         # incident voltage waves @ self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  
         
+        # if the returned S matrix came from a touchstone then the blocks of the 
+        # circuit were not solved
+        if hasattr(self, 'sNp') and flags.get('sNp', True):
+            rfCircuit.getS(self, f, flags=flags, sNp=False)
+
         # build the excitation vector @ self.Zbase
         Es = np.zeros(self.M.shape[0], dtype=complex)
         for p, Ek in zip(self.ports, Ei):
             Es[self.E[p]] = Ek
         
-        # if the returned S matrix came from a touchstone then invM was not 
-        # computed
-        if self.invM is None:
-            self.extS()
-                        
         # get all the wave quantities @ self.Zbase
         self.sol = self.invM @ Es
         _debug_ and tLogger.debug(ident('< [circuit.solve]', -1))
@@ -1628,7 +1628,7 @@ class rfCircuit(rfBase):
         _debug_ and tLogger.debug(ident(f'nodesleft= {nodesleft}'))
                
         # recursively solve the internal nodes of the blocks in the circuit
-        if nodesleft != []:
+        if nodesleft != [] and not (hasattr(self, 'sNp') and flags.get('sNp', True)):
             _debug_ and tLogger.debug(ident(f'further looking for {nodesleft}'))
             # if nodesleft is not None:
             #     # strip the leading blockname
@@ -1755,16 +1755,16 @@ class rfCircuit(rfBase):
         # Ei are the forward waves into the circuit's ports at self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2 
         
+        # if the returned S matrix came from a touchstone then the blocks of the 
+        # circuit were not solved
+        if hasattr(self, 'sNp') and flags.get('sNp', True):
+            rfCircuit.getS(self, f, flags=flags, sNp=False)
+
         # Es is the excitation : M . Ewaves = Es
         Es = np.zeros(self.M.shape[0], dtype=complex)
         for p, Ek in zip(self.ports, Ei):
             Es[self.E[p]] = Ek
 
-        # if the returned S matrix came from a touchstone then invM was not 
-        # computed
-        if self.invM is None or f != self.f:
-            self.extS()
-
         self.sol = self.invM @ Es
         Esol = dict((w,s) for w,s in zip(self.waves, self.sol))
         
-- 
2.43.0


From da92ef6a971675ee2967da29da44e6284b8b775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 105/134] fix: ports of a circuit with a touchstone not in the
 announced order

---
 src/pyRFtk/rfCircuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 6b45fc1..882bdb1 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1329,6 +1329,7 @@ class rfCircuit(rfBase):
                 # note this bypasses the solving of the nested RF objects
                 _debug_ and tLogger.debug(ident(f'using sNp'))
                     
+                self._sortports()
                 M = self.sNp.getS(f, Zbase=self.Zbase)
 
             else:
-- 
2.43.0


From cd3ae146e43ded764798c31c4234f887085adc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 106/134] fix: variables of a rfGTL model evaluated with the
 text of unresolved ones

---
 src/pyRFtk/rfGTL.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 5fb2288..14b91ad 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -93,10 +93,13 @@ class rfGTL(rfCircuit):
         found = True # prime the while loop
         while found:
             found = {}
+            # variables that are still a string are not resolved yet
+            resolved = dict((v, x) for v, x in self.vars.items()
+                            if not isinstance(x, str))
             for var, val in self.vars.items():
                 if isinstance(val, str):
                     try:
-                        found[var] = eval(val, globals(), self.vars)
+                        found[var] = eval(val, globals(), resolved)
                     except (NameError, SyntaxError, TypeError):
                         pass # probably could not resolve yet
             if found:
-- 
2.43.0


From 24bb1798b3fb41909f39ff18728d3090eb63b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 107/134] fix: blocks of a rfGTL model with both ports
 terminated

---
 src/pyRFtk/rfGTL.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 14b91ad..b69a076 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -124,20 +124,20 @@ class rfGTL(rfCircuit):
             tkwargs = self._remap_(blk, tkwargs, [('ports', 'Portnames', True)])
                           
             blkPortnames = tkwargs['ports']
-            terminated = False
+            terminated = []
             for kp, p in enumerate(blkPortnames):
                 #------------------------------------ check for terminated ports
                 if isinstance(p, dict):
                     # terminate kwargs
-                    terminated = (p, '[**]')
-                    blkPortnames[kp] = '[**]'
+                    blkPortnames[kp] = '[**]' if '[**]' not in blkPortnames else '[**2]'
+                    terminated.append((p, blkPortnames[kp]))
                     continue
                 elif isinstance(p, str):
                     if p == '[oc]':
-                        terminated = {'Y':0}, '[oc]'
+                        terminated.append(({'Y':0}, '[oc]'))
                         continue
                     elif p == '[sc]':
-                        terminated = {'Z':0}, '[sc]'
+                        terminated.append(({'Z':0}, '[sc]'))
                         continue
                 #---------------------------- check if port was already declared
                 if p not in portlist:
@@ -205,8 +205,8 @@ class rfGTL(rfCircuit):
                     raise
                 
             self.addblock(blk, RFobj, ports=blkPortnames, relpos=xpos)
-            if terminated:
-                self.terminate(f'{blk}.{terminated[1]}', **terminated[0])
+            for tkws, p in terminated:
+                self.terminate(f'{blk}.{p}', **tkws)
         
         # connect all ports that belong to more than 1 block together
         nports = 0
@@ -257,7 +257,7 @@ class rfGTL(rfCircuit):
                         tblock['xpos'] = positions[p] - xp
                         # set other ports related to that blk
                         for p1, xp1 in zip(tblock['ports'], obj.xpos):
-                            if p1 != p and p1 not in ['[**]','[oc]','[sc]']:
+                            if p1 != p and p1 not in ['[**]','[**2]','[oc]','[sc]']:
                                 if p1 not in positions:
                                     positions[p1] = tblock['xpos'] + xp1
                                 else:
-- 
2.43.0


From 329fc6ccbc0e0f09b982de92c6f18c10644c041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 108/134] fix: position of a block of a rfGTL model of which
 the first port is terminated

---
 src/pyRFtk/rfGTL.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index b69a076..efb33ea 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -178,11 +178,8 @@ class rfGTL(rfCircuit):
                                                   ('Z0TL', 'Z', False),
                                                   ('xpos', 'relpos', False)])
             
-            if 'xpos' in tkwargs:
-                xpos = tkwargs.pop('xpos')
-                positions[f'{blkPortnames[0]}'] = xpos
-            else:
-                xpos = -10
+            placed = 'xpos' in tkwargs
+            xpos = tkwargs.pop('xpos') if placed else -10
                 
             plotkws = tkwargs.pop('plotkws',{}) # future feature
             
@@ -204,6 +201,13 @@ class rfGTL(rfCircuit):
                     pprint(tkwargs)
                     raise
                 
+            if placed:
+                # xpos is the position of the first port (which may be terminated)
+                for p, xp in zip(blkPortnames, RFobj.xpos):
+                    if blk in portlist.get(p, []):
+                        positions[p] = xpos + xp - RFobj.xpos[0]
+                        break
+            
             self.addblock(blk, RFobj, ports=blkPortnames, relpos=xpos)
             for tkws, p in terminated:
                 self.terminate(f'{blk}.{p}', **tkws)
-- 
2.43.0


From d6586b93d6b18d9f159ef5a4f773dd335f1f07ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 109/134] fix: comparing a rfObject with something else fails

---
 src/pyRFtk/rfObject.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 11f869f..ae2cba6 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -398,6 +398,9 @@ class rfObject():
                         and all(same(a[k], b[k]) for k in a))
             return np.array_equal(a, b)
         
+        if not isinstance(other, rfObject):
+            return NotImplemented
+        
         # these only depend on what was last evaluated
         volatile = ['f', 'S', 'interpOK', 'interpM', 'interpA']
         
-- 
2.43.0


From eecaa82965f2fc0cc1bbe02ce48f9e2174e74647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 110/134] fix: findpath takes wildcards in directory names and
 directories for files

---
 src/pyRFtk/findpath.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/findpath.py b/src/pyRFtk/findpath.py
index 69e605c..7ffb425 100755
--- a/src/pyRFtk/findpath.py
+++ b/src/pyRFtk/findpath.py
@@ -8,7 +8,7 @@
 #| 2015-Aug-26 | modified from the original findpath                            |
 #+-------------+----------------------------------------------------------------+
 
-from glob import glob
+from glob import glob, escape
 import os
 
 #===============================================================================
@@ -92,7 +92,11 @@ def findpath(fpattern,
                     print('  %r' % ('.' + root[len(sdir):]))
                     for f in files:
                         print('   %r' % f)
-                fnames = glob(os.path.join(root, fpattern).replace('[', '[[]'))
+                # only the wildcards in fpattern count and not those in the
+                # directories, and only files are looked for
+                fnames = [f for f in glob(os.path.join(
+                              escape(root), fpattern.replace('[', '[[]')))
+                          if os.path.isfile(f)]
                 if fnames:
                     fname = sorted(fnames)[-1]  # take the first / last
                     break
-- 
2.43.0


From 2ee6102c35e1bfdd58cf0c8a49b71918baf8202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 111/134] fix: maxfun inaccurate for points close to each other
 compared to their positions

---
 src/pyRFtk/maxfun.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/pyRFtk/maxfun.py b/src/pyRFtk/maxfun.py
index 2412fa5..b8b25f0 100644
--- a/src/pyRFtk/maxfun.py
+++ b/src/pyRFtk/maxfun.py
@@ -7,8 +7,6 @@ from .config import logit, tLogger, ident
 
 VERBOSE = False
 
-import warnings
-
 def maxfun(xs, ys):
     debug = logit['DEBUG']
     debug and tLogger.debug(ident(
@@ -49,16 +47,17 @@ def maxfun(xs, ys):
     for idx in idxmaxs:
         cases.append([ys[idx],ys[idx+1],ys[idx+2]])
         
-        # note polyfit can cast a numpy.RankWarning:
-        #  this probably happens when the TL fixed step dx parameter causes
-        #  the last but one and last points to be too close to each other
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            p = np.polyfit([xs[idx],xs[idx+1],xs[idx+2]],
-                           [ys[idx],ys[idx+1],ys[idx+2]],
-                           deg=2)
+        # parabola through the 3 points: y0 + p1 (x - x0) + p0 (x - x0)**2
+        #  (written with the distances to the middle point x0,y0 because the
+        #  points can be very close to each other compared to their positions)
+        x0, y0 = xs[idx+1], ys[idx+1]
+        with np.errstate(all='ignore'):
+            hL, hR = np.float64(x0 - xs[idx]), np.float64(xs[idx+2] - x0)
+            sL, sR = (y0 - ys[idx])/hL, (ys[idx+2] - y0)/hR
+            p0 = (sR - sL)/(hL + hR)
+            p1 = (sL*hR + sR*hL)/(hL + hR)
+            xy = (x0 - p1/(2*p0), y0 - p1**2/(4*p0))
         
-        xy = (-p[1]/(2*p[0]), p[2]-p[1]**2/(4*p[0]))
         if  xs[idx] <= xy[0] <= xs[idx+2]:
             if xy[1] > xymax[1]:
                 xymax = xy
-- 
2.43.0


From d5acf58b466fc3d9bd57cec59d53a2a5668dbb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 112/134] fix: maxfun finds no maximum between samples for
 descending positions

---
 src/pyRFtk/maxfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/maxfun.py b/src/pyRFtk/maxfun.py
index b8b25f0..1372b20 100644
--- a/src/pyRFtk/maxfun.py
+++ b/src/pyRFtk/maxfun.py
@@ -58,7 +58,7 @@ def maxfun(xs, ys):
             p1 = (sL*hR + sR*hL)/(hL + hR)
             xy = (x0 - p1/(2*p0), y0 - p1**2/(4*p0))
         
-        if  xs[idx] <= xy[0] <= xs[idx+2]:
+        if min(xs[idx],xs[idx+2]) <= xy[0] <= max(xs[idx],xs[idx+2]):
             if xy[1] > xymax[1]:
                 xymax = xy
         else:
-- 
2.43.0


From 8d4d1ec90173ae329e809a0c5926911d11ec30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 113/134] fix: the text of str_dict depends on earlier calls
 that failed or had no dict

---
 src/pyRFtk/str_dict.py | 45 ++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/pyRFtk/str_dict.py b/src/pyRFtk/str_dict.py
index d0725ea..ad47b49 100644
--- a/src/pyRFtk/str_dict.py
+++ b/src/pyRFtk/str_dict.py
@@ -2,35 +2,28 @@ __updated__ = "2021-12-16 15:50:48"
 
 def str_dict(adict):
     
-    try:
-        str_dict.N
-    except AttributeError:
-        str_dict.N = 0
-        str_dict.s = ''
+    # note: nothing is kept between calls (also not when a call fails)
     
-    if isinstance(adict, dict):
-        str_dict.s +=  '{\n'
-        str_dict.N += 1
-        for key, val in adict.items():
-            str_dict.s += '    '*str_dict.N + ' '+key + ': '
-            str_dict(val)
-        str_dict.N -= 1
-        str_dict.s += '    '*str_dict.N + '},\n'
-        if str_dict.N == 0: # done: do not keep the text for the next call
-            s, str_dict.s = str_dict.s, ''
-            return s
-    else:
-        if isinstance(adict, tuple) and len(adict)==2:
-            if len(adict[0]) == 1:
-                str_dict.s += f'node [{"N/A" if adict[0][0] is None else "%7.4f"%adict[0][0]} m],\n'
-            else:
-                str_dict.s += (
-                    f'line [{len(adict[0])} pts, '
-                    f'{adict[0][0]:7.4f}m to  {adict[0][-1]:7.4f}m],\n')
+    def tostr(adict, N):
+        s = ''
+        if isinstance(adict, dict):
+            s +=  '{\n'
+            for key, val in adict.items():
+                s += '    '*(N + 1) + f' {key}: ' + tostr(val, N + 1)
+            s += '    '*N + '},\n'
         else:
-            str_dict.s += f'?? {type(adict)},\n'
+            if isinstance(adict, tuple) and len(adict)==2:
+                if len(adict[0]) == 1:
+                    s += f'node [{"N/A" if adict[0][0] is None else "%7.4f"%adict[0][0]} m],\n'
+                else:
+                    s += (
+                        f'line [{len(adict[0])} pts, '
+                        f'{adict[0][0]:7.4f}m to  {adict[0][-1]:7.4f}m],\n')
+            else:
+                s += f'?? {type(adict)},\n'
+        return s
     
-    return str_dict.s
+    return tostr(adict, 0)
         
 if __name__ == '__main__':
     import pickle
-- 
2.43.0


From b29e7f97622791d64ac52306a0a014f6a529d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 114/134] fix: nodes with numpy positions (other than float64)
 are missing in plots

---
 src/pyRFtk/plotVSWs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index 6749977..48399e9 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -75,7 +75,7 @@ def plotVSWs(VSWs, maxlev=4, Id = None,  **kwargs):
                 
             elif plotnodes:
                 _debug_ and tLogger.debug(ident(f'node'))
-                if isinstance(xs[0], (float,int)):
+                if xs[0] is not None: # any kind of real number
                     plt.plot(xs, absV, 'd', label=lbl)
                     
         _debug_ and tLogger.debug(ident(f'< [plotit]',-1))
@@ -147,7 +147,7 @@ def plotVSWs(VSWs, maxlev=4, Id = None,  **kwargs):
                             curdist2, curBLK, curUp, curX = ndist2, BLK, yq, xq
                 else:
                     _debug_ and tLogger.debug(ident(f'(node)'))
-                    if isinstance(xs[0], (float, int)):
+                    if xs[0] is not None:
                         ndist2 = (xs[0] - xp)**2 + (ks * (Us[0] - yp))**2
                         if ndist2 < curdist2:
                             curdist2, curBLK, curUp, curX = ndist2, BLK, Us[0], xs[0]
-- 
2.43.0


From 75aeb1457d130f53a1892045ed36481991b11fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 115/134] fix: an empty list of frequencies is refused by
 rfObject and rfGTL

---
 src/pyRFtk/rfGTL.py    | 3 ++-
 src/pyRFtk/rfObject.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index efb33ea..04bed4a 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -478,7 +478,8 @@ class rfGTL(rfCircuit):
         #FIXME: params is not consistently used across the various call signatures
         
         # this should force the correct update of the circuit object's self.E
-        if not hasattr(super(),'E') or not super().E:
+        if ((not hasattr(super(),'E') or not super().E)
+            and not (hasattr(fs,'__iter__') and len(fs) == 0)):
 
             self.getSgtl(fs[0] if hasattr(fs,'__iter__') else fs, 
                          Zbase=Zbase, params=params)
diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index ae2cba6..952ff2b 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -585,7 +585,7 @@ class rfObject():
                     tS if Zbase == self.Zbase
                     else ConvertGeneral(Zbase, tS, self.Zbase)
                 )
-            self.f, self.S = f, Ss[-1]
+                self.f, self.S = f, Ss[-1]
             
         else:
             tS = get1S(fs)
-- 
2.43.0


From 3175db4a8590e82b113f236954e9ed1dbaafdd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 116/134] fix: a circuit that was solved cannot be extended

---
 src/pyRFtk/rfCircuit.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 882bdb1..cfb36d8 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -458,6 +458,8 @@ class rfCircuit(rfBase):
                 )
             ports.remove(p)
         
+        self._reopen()
+        
         self.S = None 
         self.invM = None
         
@@ -691,6 +693,8 @@ class rfCircuit(rfBase):
         # else:
         #     xpos += np.zeros(len(oports))
             
+        self._reopen()
+        
         self.blocks[name] = {
             'params' : params,
             'ports'  : oports,
@@ -834,6 +838,8 @@ class rfCircuit(rfBase):
                     f'{whoami(__package__)}: port {p} is already in use'
                 )
         
+        self._reopen()
+        
         for p in newports:
             self.waves.append('->'+p)
             self.waves.append('<-'+p) 
@@ -1131,6 +1137,23 @@ class rfCircuit(rfBase):
         _debug_ and tLogger.debug(ident(f'< [circuit.extS]',-1))
         return self.S
     
+    #===========================================================================
+    #
+    # _ r e o p e n
+    #
+    def _reopen(self):
+        """removes the equations of the external ports: these were added when the
+        circuit was solved but now the circuit will be extended (they are added 
+        again the next time the circuit is solved)
+        """
+        rows = sorted(self.E.values())
+        if rows:
+            self.M = np.delete(self.M, rows, axis=0)
+            self.eqns = [eqn for k, eqn in enumerate(self.eqns) if k not in rows]
+            self.T = dict([(p, (idxA, idxB, k - sum(r < k for r in rows)))
+                           for p, (idxA, idxB, k) in self.T.items()])
+            self.E = {}
+            
     #===========================================================================
     #
     # _ u n s o l v e
-- 
2.43.0


From 2cc217af1353d5211f3cf4edc2f42aca417c9010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 117/134] fix: a refused assignment of a table entry changes
 its frequency

---
 src/pyRFtk/rfObject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 952ff2b..9e321b2 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -353,8 +353,10 @@ class rfObject():
     #  _ _ s e t i t e m _ _
     #
     def __setitem__(self, k, value):
-        self.fs[k] = value[0]
-        self.Ss[k,:,:] = value[1]
+        fs = self.fs.copy()
+        fs[k] = value[0]
+        self.Ss[k,:,:] = np.array(value[1], dtype=complex)
+        self.fs = fs
         self.sorted = bool(np.all(np.diff(self.fs) > 0))
         self.interpOK = False
     
-- 
2.43.0


From 8a8771574ce19fdf2dfb5a444a0e6dcb3c27f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 118/134] fix: a refused rfObject.deembed leaves the first
 ports deembedded

---
 src/pyRFtk/rfObject.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 9e321b2..1fdd0a9 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -766,7 +766,7 @@ class rfObject():
                 f'pyRFtk2.rfObject.deembed: port(s) {",".join(unknown)}'
                 ' not found.')
         
-        self.interpOK = False      
+        Ss = self.Ss.copy()
         
         for kp, port in enumerate(self.ports):
             if port in ports:
@@ -785,7 +785,7 @@ class rfObject():
                         f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
     
                 
-                for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
+                for kS, (f, Sobj) in enumerate(zip(self.fs, Ss)):
                     Strl = TRL.getS(f * self.fscale)
                                         
                     qn = 1 - Strl[0,0] * Sobj[kp,kp]
@@ -817,6 +817,10 @@ class rfObject():
                         raise RuntimeError(
                             'pyRFtk2.rfObject.deembed: this should not happen !')
                 
-                    self.Ss[kS,:,:] = Sobj[:,:]
+                    Ss[kS,:,:] = Sobj[:,:]
+
+        # all ports could be deembedded
+        self.Ss[:] = Ss
+        self.interpOK = False
 
 
-- 
2.43.0


From 5aadd7114e86186e122a4a95cf41f7f66a50ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 119/134] fix: a nested circuit can get more ports than its
 circuit knows of

---
 src/pyRFtk/rfCircuit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index cfb36d8..3e5c58e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -604,6 +604,12 @@ class rfCircuit(rfBase):
             _debug_ and logident(f'adding {subblock} to "{self.Id}".blocks[{name}]')
             
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
+            if len(subblockobj) != len(self.blocks[name]['ports']):
+                raise ValueError(
+                    f'{whoami(__package__)}: [update subblock {name+"."+subblock}]:'
+                    f' number of ports mismatch: existing '
+                    f'{len(self.blocks[name]["ports"])}, new {len(subblockobj)}')
+            
             self.blocks[name]['object'] = subblockobj
             if '.' not in subblock:
                 subblockobj.blocks[subblock]['params'] = params
-- 
2.43.0


From 4a75263baa21b9359c838eabac135bb18e3cf4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 120/134] fix: blocks with duplicate ports or a S-matrix that
 is not square are accepted

---
 src/pyRFtk/rfCircuit.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 3e5c58e..3938407 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -576,6 +576,10 @@ class rfCircuit(rfBase):
         params = deepcopy(params)
         if isinstance(RFobj, (np.ndarray, list, tuple)):
             RFobj = np.array(RFobj)
+            if RFobj.ndim != 2 or RFobj.shape[0] != RFobj.shape[1]:
+                raise ValueError(
+                    f'{whoami(__package__)}["{name}"]: expecting a square S-matrix: '
+                    f'shape is {RFobj.shape}')
         
         self.S = None
         self.invM = None
@@ -683,6 +687,10 @@ class rfCircuit(rfBase):
                 f'{whoami(__package__)}["{name}"]: RFobj len(ports)={len(oports)} '  
                 f'and len(RFobj)={N} mismatch')
         
+        if len(set(oports)) != N:
+            raise ValueError(
+                f'{whoami(__package__)}["{name}"]: duplicate port names {oports}')
+        
         # check the position parameter xpos
         
         if 'xpos' in kwargs:
-- 
2.43.0


From 5659875827b6d2668bcc345881266e954dcf759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 121/134] fix: the first of several parameters of a circuit are
 modified when another one is refused

---
 src/pyRFtk/rfCircuit.py | 62 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 3938407..6010669 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1181,6 +1181,38 @@ class rfCircuit(rfBase):
             if hasattr(blk['object'], '_unsolve'):
                 blk['object']._unsolve()
     
+    #===========================================================================
+    #
+    # _ s e t t i n g s
+    #
+    def _settings(self, blkIDs=None):
+        """collects the attributes of the objects in (some of) the blocks such
+        that these can be restored when a part of the modifications is refused
+        """
+        saved = []
+        for blkID in self.blocks if blkIDs is None else blkIDs:
+            obj = self.blocks[blkID]['object'] if blkID in self.blocks else None
+            if hasattr(obj, 'blocks'):
+                saved += obj._settings()
+            elif hasattr(obj, 'set'):
+                saved.append((obj, dict(obj.__dict__), 
+                              dict(getattr(obj, 'kwargs', {}))))
+        return saved
+    
+    #===========================================================================
+    #
+    # _ r e s t o r e
+    #
+    @staticmethod
+    def _restore(saved):
+        """restores the attributes collected by _settings"""
+        for obj, attrs, kwargs in saved:
+            obj.__dict__.clear()
+            obj.__dict__.update(attrs)
+            if hasattr(obj, 'kwargs'):
+                obj.kwargs.clear()
+                obj.kwargs.update(kwargs)
+    
     #===========================================================================
     #
     # s e t 
@@ -1280,6 +1312,23 @@ class rfCircuit(rfBase):
         # mark the circuit as not solved
         if kwargs:
             self._unsolve()
+        
+        # all or none of the modifications are done
+        saved = self._settings(set(kw.split('.',1)[0] for kw in kwargs))
+        try:
+            return self._set(**kwargs)
+        except Exception:
+            self._restore(saved)
+            raise
+    
+    #===========================================================================
+    #
+    # _ s e t
+    #
+    def _set(self, **kwargs):
+        
+        debug = logit['DEBUG']
+        modified = False
             
         # progess the kwargs
         debug and logident('starting kwargs loop ...')
@@ -1378,11 +1427,16 @@ class rfCircuit(rfBase):
                            ('flag sNp set to False' if 'sNp' in flags else '(why?)'))
                     tLogger.debug(ident(f'not using sNp: {msg}'))
                     
-                for blkID, sdict in params.items():
-                    if blkID in self.blocks and hasattr(
+                saved = self._settings(params)
+                try:
+                    for blkID, sdict in params.items():
+                        if blkID in self.blocks and hasattr(
                                            self.blocks[blkID]['object'], 'set'):
-                        if self.blocks[blkID]['object'].set(**sdict):
-                            self._unsolve()
+                            if self.blocks[blkID]['object'].set(**sdict):
+                                self._unsolve()
+                except Exception:
+                    self._restore(saved)
+                    raise
                 
                 if f != self.f or self.S is None or self.flags != flags:
                     
-- 
2.43.0


From 8992713692ce0ac44b49d7be55f0dc47b96a410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:30 +0000
Subject: [PATCH 122/134] fix: rfTRL, rfRLC and rfArcObj with a wrong number of
 ports are accepted

---
 src/pyRFtk/rfArcObj.py | 5 +++++
 src/pyRFtk/rfRLC.py    | 3 +++
 src/pyRFtk/rfTRL.py    | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index 2663680..8894d2b 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -13,6 +13,7 @@ import numpy as np
 
 from . import rfBase
 from .config import logit, logident
+from .whoami import whoami
 
 #===============================================================================
 #
@@ -55,6 +56,10 @@ class rfArcObj(rfBase):
         
         _debug_ and logident(f'{kwargs}')
         
+        if len(self.ports) != 1 and 'Ss' not in kwargs:
+            raise ValueError(
+                f'{whoami(__package__)}: expecting 1 port: got {self.ports}')
+            
         Larc, args = (args[0], args[1:]) if len(args) else (+np.inf, ())
         self.Larc = kwargs.pop('Larc', Larc)
         if args:
diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 8eaa6d9..79eb0d0 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -70,6 +70,9 @@ class rfRLC():
         self.Id = kwargs.pop('Id', f'{type(self).__name__}_{_newID()}')
         self.Zbase = kwargs.pop('Zbase', 50.)
         self.ports = list(kwargs.pop('ports',['s','p']))
+        if len(self.ports) != 2:
+            raise ValueError(
+                f'{whoami(__package__)}: expecting 2 ports: got {self.ports}')
         self.Rs = kwargs.pop('Rs', 0.)
         self.Ls = kwargs.pop('Ls', 0.)
         self.Cs = kwargs.pop('Cs', +np.inf)
diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 45fdc4a..79c2939 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -185,6 +185,9 @@ class rfTRL():
             
         self.Id = kwargs.pop('Id','rfTRL_'+_newID())
         self.ports = list(kwargs.pop('ports',['1','2']))
+        if len(self.ports) != 2:
+            raise ValueError(
+                f'{whoami(__package__)}: expecting 2 ports: got {self.ports}')
         self.L = kwargs.pop('L', 0.)
         self.Zbase = kwargs.pop('Zbase', 50.)
         self.dx = kwargs.pop('dx', 72) # int -> 1/int-th of wavelength 
-- 
2.43.0


From 95cc93d2d61ef48455dbf18b0e342395d4365e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 123/134] fix: rfCircuit.deembed accepts the same new port
 twice

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 6010669..92bc0ed 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -440,8 +440,8 @@ class rfCircuit(rfBase):
             
         
         ports = list(self.ports)
-        for dp, ip in IntPorts:
-            if f'->{ip}' in self.waves:
+        for k, (dp, ip) in enumerate(IntPorts):
+            if f'->{ip}' in self.waves or ip in [_p for _, _p in IntPorts[:k]]:
                 raise ValueError(
                     f'{whoami(__package__)}: (internal) port {ip} already exists '
                 )
-- 
2.43.0


From fbae03102be06055b24124060ad1f84bc9b3d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 124/134] fix: rfGTL scales a variable that is an array again
 for each block that uses it

---
 src/pyRFtk/rfGTL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 04bed4a..f2b2328 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -172,7 +172,7 @@ class rfGTL(rfCircuit):
                     if isinstance(tkwargs[kw], (list, tuple)):
                         tkwargs[kw] = [v * conv[kw] for v in tkwargs[kw]]
                     else:
-                        tkwargs[kw] *= conv[kw]
+                        tkwargs[kw] = tkwargs[kw] * conv[kw]
                         
             tkwargs = self._remap_(blk, tkwargs, [('L', 'length', False),
                                                   ('Z0TL', 'Z', False),
-- 
2.43.0


From fb361765c32463ee36e70c789d46b9e1f670167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 125/134] fix: rfTRL has no positions when xpos is a numpy
 integer

---
 src/pyRFtk/rfTRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 79c2939..efe948a 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -208,7 +208,7 @@ class rfTRL():
                     'rfTRL.__init__: port count mismatch'
                 )
         
-        elif isinstance(xpos, (float,int)):
+        elif isinstance(xpos, (float, int, np.number)):
             self.xpos = [xpos, self.L + xpos]
         
         #------------------------------------------------------------ touchstone
-- 
2.43.0


From a777b8368b82a8b60ff58085b057f6bcbe38ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:23 +0000
Subject: [PATCH 126/134] fix: rfObject.setS keeps the port impedances of a
 touchstone in step with the frequencies

---
 src/pyRFtk/rfObject.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 1fdd0a9..d8bb128 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -657,6 +657,13 @@ class rfObject():
             else:
                 self.fs = np.append(self.fs, fk)
                 self.Ss = np.append(self.Ss, [Sk], axis=0)
+                # the port impedances and gammas are not known here
+                if len(self.Zcs):
+                    self.Zcs = np.append(
+                        self.Zcs, np.full((1, self.Zcs.shape[1]), np.nan), axis=0)
+                if len(self.Gms):
+                    self.Gms = np.append(
+                        self.Gms, np.full((1, self.Gms.shape[1]), np.nan), axis=0)
         
         # do not sort each time
         self.sorted = bool(np.all(np.diff(self.fs) > 0))
-- 
2.43.0


From b5cc643ce52334716eeabf4774c26e2d31bb42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:13 +0000
Subject: [PATCH 127/134] fix: compareSs shows all the data sets when there are
 more than default styles

---
 src/pyRFtk/compareSs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/compareSs.py b/src/pyRFtk/compareSs.py
index 998e148..8e91251 100644
--- a/src/pyRFtk/compareSs.py
+++ b/src/pyRFtk/compareSs.py
@@ -27,6 +27,7 @@ def compareSs(fs, Ss, cs=[], lbls=[], **figkwargs):
     
     if not len(cs):
         cs = ['r','b--','g--','m','c','k']
+        cs = [cs[k % len(cs)] for k in range(len(Ss))]
     
     if not len(lbls):
         lbls = [f'{k+1}' for k in range(len(Ss))]
-- 
2.43.0


From 7d75856aed15b1c5e13aca3ebcbd2fcb83672b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:13 +0000
Subject: [PATCH 128/134] fix: TLresolver shows that a conductivity from the
 loss tangent depends on the frequency

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 8a136de..889ff45 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -254,7 +254,7 @@ class TLresolver():
             ('gTL', ('rTL', 'LTL', 'CTL', 'A'), 1, _gTL__A_CTL_LTL_rTL_),    #53
             ('A', ('rTL', 'gTL', 'LTL', 'CTL'), 1, _A__CTL_gTL_LTL_rTL_),
             #-- ------------------------------------------------------------- --
-            ('sigma', ('tand', 'epsr'), 0., lambda w, x:                     #52
+            ('sigma', ('tand', 'epsr'), 1., lambda w, x:                     #52
                 w * self.epsr(w,x) * e0 * self.tand(w,x)
             ),
             #-- ------------------------------------------------------------- --
-- 
2.43.0


From 456d10a42467ea9a833b41e6bba2761644c0ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:13 +0000
Subject: [PATCH 129/134] fix: rfCircuit.__str__ shows the complete equations
 of a new port that is connected again

---
 src/pyRFtk/rfCircuit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 92bc0ed..bc92efd 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -159,9 +159,9 @@ class rfCircuit(rfBase):
                 sij = Mr[i2+N+k-i1]
                 s += f'[{i2+N+k-i1:3d}] {sij.real:+7.4f}{sij.imag:+7.4f}j '
             elif typ[0] == 'C':
-                idxA, idxBs = self.C[port]
-                idxs = sorted([idxA] + idxBs)
-                for idx in idxs:
+                # self.C[port] is not sufficient: a new port of a connection can
+                # be connected again
+                for idx in np.nonzero(Mr)[0]:
                     sij = Mr[idx]
                     s += f'[{idx:3d}] {sij.real:+7.4f}{sij.imag:+7.4f}j '
             elif typ[0] == 'D':
-- 
2.43.0


From 5fa4b81f267a7d91333b2eb19143fef8a2d7fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:27 +0000
Subject: [PATCH 130/134] fix: rfCircuit.getS notices objects that were
 modified since the last evaluation

---
 src/pyRFtk/rfCircuit.py | 47 +++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index bc92efd..5b31326 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1438,29 +1438,36 @@ class rfCircuit(rfBase):
                     self._restore(saved)
                     raise
                 
-                if f != self.f or self.S is None or self.flags != flags:
+                # get the S-matrices of the blocks: even if this frequency was the
+                # last one an object may have been modified since
+                
+                modified = f != self.f or self.S is None or self.flags != flags
+                
+                for blkID, blk in self.blocks.items():
+                    _debug_ and tLogger.debug(ident(
+                        f'getting S for {blkID}'
+                    ))
+                                    
+                    i1, i2 = blk['loc']
+                    N = len(blk['ports'])
                     
-                    # we need to recompute the S-matrix
+                    if hasattr(blk['object'], 'getS'):
+                        # recursively get the lower level S-matrices
+                        S = blk['object'].getS(f, Zbase=self.Zbase, 
+                                               params=blk['params'], 
+                                               flags=flags)
+                    else:
+                        # this is when the object is a np.array
+                        S = blk['object']
                     
-                    for blkID, blk in self.blocks.items():
-                        _debug_ and tLogger.debug(ident(
-                            f'getting S for {blkID}'
-                        ))
-                                        
-                        i1, i2 = blk['loc']
-                        N = len(blk['ports'])
-                        
-                        if hasattr(blk['object'], 'getS'):
-                            # recursively get the lower level S-matrices
-                            S = blk['object'].getS(f, Zbase=self.Zbase, 
-                                                   params=blk['params'], 
-                                                   flags=flags)
-                        else:
-                            # this is when the object is a np.array
-                            S = blk['object']
-                        
+                    if modified or not np.array_equal(
+                                                 self.M[i1:i1+N,i2:i2+N], S):
+                        modified = True
+                        self.S = None # until the circuit is solved
                         self.M[i1:i1+N,i2:i2+N] = S
-                                                        
+                
+                if modified:
+                    # we need to recompute the S-matrix
                     M = self.extS()
                     self.f, self.S, self.flags = f, M, flags.copy()
                     
-- 
2.43.0


From f184cdce19fede12f655e6f5c19ecd55fd36dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:44 +0000
Subject: [PATCH 131/134] fix: TLresolver: the attenuation constant A of
 overdamped (r.g > w^2.L.C) and dc lines is no longer nan

The closed form divides by 1 - r.g/(w^2.L.C), by w, and loses its digits
when the losses are small.
---
 src/pyRFtk/resolveTLparams.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 889ff45..3a4fedb 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -137,13 +137,9 @@ class TLresolver():
         
         def _A__CTL_gTL_LTL_rTL_(w,x=0):
             # could be _A__gamma_ : np.real(self.gamma(w,x))
-            wL = w * self.LTL(w,x)
-            wC = w * self.CTL(w,x)
-            gwC = self.gTL(w,x) / wC 
-            rwL = self.rTL(w,x) / wL
-            rwLgwC1 = (1 - rwL * gwC)
-            a2 = rwLgwC1 * (np.sqrt(1 +((rwL + gwC)/rwLgwC1)**2) - 1) / 2
-            return np.sqrt(a2 * wL * wC)
+            rjwL = self.rTL(w,x) + 1j * w * self.LTL(w,x)
+            gjwC = self.gTL(w,x) + 1j * w * self.CTL(w,x)
+            return np.real(np.sqrt(rjwL * gjwC))
         
         def _gamma__gjwC_rjwL_(w,x=0):
             return (self.gjwC(w,x)*self.rjwL(w,x))**0.5
-- 
2.43.0


From 69d289c1b4b28132dd74338a44c8cfa3d9908021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:40 +0000
Subject: [PATCH 132/134] fix: rfTRL: lines with a large attenuation are
 reciprocal again and their standing waves stay finite

The S-matrix and the standing wave were found from the transfer matrix of
the line as small differences of terms that grow with the attenuation: S21
was wrong by orders of magnitude beyond some 20 Np and nan beyond 709 Np.
---
 src/pyRFtk/rfTRL.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index efe948a..3d7ac2c 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -461,6 +461,8 @@ class rfTRL():
                     num = int(np.ceil(self.L/self.dx))
                     xs = np.linspace(0, self.L, max(2,num))
                                        
+            wave = None # propagation and wave impedance if constant
+            
             if xs[0] == xs[-1]:
                 
                 # special case of a 0-length TL section
@@ -486,6 +488,7 @@ class rfTRL():
                 
                 else:
                     Zc = self.rjwL(w,0) / gm
+                    wave = gm, Zc
                     
                     egmx = np.exp(gm * xs)
                     egmx1 = 1/egmx
@@ -508,12 +511,25 @@ class rfTRL():
             VIt = np.array([[U10, U01],
                             [I10, I01]])
     
-            S = S_from_VI(VIt[:,:,-1], self.Zbase)
+            if wave is None:
+                S = S_from_VI(VIt[:,:,-1], self.Zbase)
+                S[1,0] = S[0,1] # (as it is a small difference of large terms)
             
+            else:
+                # S_from_VI looses its digits for large attenuations
+                gm, Zc = wave
+                zc = Zc / self.Zbase
+                T = np.exp(-gm * self.L)
+                sh, ch = -0.5 * np.expm1(-2 * gm * self.L), 0.5 * (1 + T**2)
+                D = 2 * ch + (zc + 1/zc) * sh
+                S = np.array([[(zc - 1/zc) * sh,  2 * T          ],
+                              [ 2 * T          , (zc - 1/zc) * sh]]) / D
+                
             self.solved[f] = {
                 'xs'    : xs,
                 'S'     : S,
                 'VI'    : VIt,
+                'wave'  : wave,
                 'VISWs' : {}
             }
             
@@ -595,8 +611,15 @@ class rfTRL():
             Vs = As + Bs
             Is = -(As - Bs) / Zbase
             
-            _, Vsw, Isw = self.solveVI(f, Vs[0], Is[0])
+            xs, Vsw, Isw = self.solveVI(f, Vs[0], Is[0])
             
+            if self.solved[f]['wave'] and not self.sNp:
+                # combine the waves from both ends as neither of them grows
+                gm, Zc = self.solved[f]['wave']
+                V12 = (Vs[0] - Zc * Is[0]) / 2 * np.exp(-gm * xs)
+                V21 = (Vs[1] - Zc * Is[1]) / 2 * np.exp(-gm * (xs[-1] - xs))
+                Vsw, Isw = V12 + V21, (V21 - V12) / Zc
+                
             self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, dict(E))
             
         return copy.deepcopy((self.solved[f]['xs'], 
-- 
2.43.0


From 7361672419e1da8ace965d98b1eb15895d4e9edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:59 +0000
Subject: [PATCH 133/134] fix: rfBase.getS returns a matrix of its own and not
 the one of the last evaluation that is shown in the description

---
 src/pyRFtk/rfBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 648a5dd..c8f69b2 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -286,7 +286,8 @@ class rfBase():
         self.set(**kwargs.pop('params', {}))
         
         if hasattr(fs,'__iter__'):
-            Ss = [self.get1S(fk) for fk in fs]
+            # (not references to self.S)
+            Ss = [np.array(self.get1S(fk)) for fk in fs]
             
             Zbase = kwargs.pop('Zbase', self.Zbase)
             R = ConvertGeneral(Zbase, Ss, self.Zbase) if Zbase != self.Zbase else Ss
-- 
2.43.0


From 31832ea29b6695f8303cc33a319bd3bd38075025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:59 +0000
Subject: [PATCH 134/134] fix: rfCircuit.deembed refuses new port names with a
 '.' as connect does

such a port is taken for the one of a block: getpos, maxV and the like failed
---
 src/pyRFtk/rfCircuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 5b31326..bd16965 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -441,6 +441,10 @@ class rfCircuit(rfBase):
         
         ports = list(self.ports)
         for k, (dp, ip) in enumerate(IntPorts):
+            if '.' in ip:
+                raise ValueError(
+                    f"{whoami(__package__)}: a new port name can't contain a '.'"
+                )
             if f'->{ip}' in self.waves or ip in [_p for _, _p in IntPorts[:k]]:
                 raise ValueError(
                     f'{whoami(__package__)}: (internal) port {ip} already exists '
-- 
2.43.0

