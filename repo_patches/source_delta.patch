From b0300573d90e4c0d17846b372d6ae73826e3258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:39 +0000
Subject: [PATCH 01/34] fix: make TractorMultiprocMixin usable: keep the pool,
 return models, restore images on failure

---
 tractor/multiproc.py | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/tractor/multiproc.py b/tractor/multiproc.py
index dce446b..785f26b 100644
--- a/tractor/multiproc.py
+++ b/tractor/multiproc.py
@@ -1,5 +1,10 @@
 from __future__ import print_function
 
+import numpy as np
+
+from tractor.engine import Images, logverb
+from tractor.patch import Patch
+
 
 class TractorMultiprocMixin(object):
 
@@ -8,6 +13,14 @@ class TractorMultiprocMixin(object):
         if mp is None:
             from astrometry.util.multiproc import multiproc
             mp = multiproc()
+        self.mp = mp
+
+    def __setstate__(self, state):
+        # The worker pool itself does not survive pickling; a restored
+        # object starts out with a serial one.
+        from astrometry.util.multiproc import multiproc
+        super(TractorMultiprocMixin, self).__setstate__(state)
+        self.mp = multiproc()
 
     def _map(self, func, iterable):
         return self.mp.map(func, iterable)
@@ -16,14 +29,18 @@ class TractorMultiprocMixin(object):
         return self.mp.map_async(func, iterable)
 
     def getModelImages(self):
-        # avoid shipping my images...
         allimages = self.getImages()
-        self.images = Images()
         args = [(self, im) for im in allimages]
-        # print 'Calling _map:', getmodelimagefunc2
-        # print 'args:', args
-        mods = self._map(getmodelimagefunc2, args)
-        self.images = allimages
+        if self.modelMasks is not None:
+            # the model masks are indexed by image, so the workers need them.
+            return self._map(getmodelimagefunc2, args)
+        # avoid shipping my images...
+        self.images = Images()
+        try:
+            mods = self._map(getmodelimagefunc2, args)
+        finally:
+            self.images = allimages
+        return mods
 
     def getDerivs(self):
         allderivs = []
@@ -94,8 +111,8 @@ class TractorMultiprocMixin(object):
         sderivs = self._map_async(getsrcderivs, reversed(args))
 
         # Wait for and unpack the image derivatives...
-        mod0s = mod0s.get()
-        mod1s = mod1s.get()
+        mod0s = list(mod0s.get())
+        mod1s = list(mod1s.get())
         # convert to a imj->mod0 map
         assert(len(mod0s) == len(needimjs))
         mod0s = dict(zip(needimjs, mod0s))
@@ -108,7 +125,7 @@ class TractorMultiprocMixin(object):
                     step = im.getStepSizes()[k]
                     mod1 = mod1s.pop()
                     d = Patch(0, 0, (mod1 - mod0) / step)
-                    d.name = 'd(im%i)/d(%s)' % (j, nm)
+                    d.name = 'd(im%i)/d(%s)' % (imj, nm)
                 allderivs.append([(d, im)])
         # popped all
         assert(len(mod1s) == 0)
@@ -123,7 +140,7 @@ class TractorMultiprocMixin(object):
         #       allderivs.append([(deriv, im)])
 
         # Wait for source derivs...
-        sderivs = sderivs.get()
+        sderivs = list(sderivs.get())
 
         for j, src in enumerate(srcs):
             srcderivs = [[] for i in range(src.numberOfParams())]
@@ -163,8 +180,10 @@ def getmodelimagestep(X):
     (tr, j, k, p0, step) = X
     im = tr.getImage(j)
     im.setParam(k, p0 + step)
-    mod = tr.getModelImage(im)
-    im.setParam(k, p0)
+    try:
+        mod = tr.getModelImage(im)
+    finally:
+        im.setParam(k, p0)
     return mod
 
 
-- 
2.43.0


From 601fbee4eeb615f19bad3eba459e4e0718e73ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:57 +0000
Subject: [PATCH 02/34] fix: keep model_kwargs, and have a cache, in an
 unpickled Tractor

---
 tractor/cache.py  | 6 ++++++
 tractor/engine.py | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index a35c60d..0375fa0 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -11,6 +11,12 @@ class TractorCacheMixin(object):
             cache = Cache()
         self.cache = cache
 
+    def __setstate__(self, state):
+        # The cache is not pickled; a restored object starts with an empty one.
+        from .cache import Cache
+        super(TractorCacheMixin, self).__setstate__(state)
+        self.cache = Cache()
+
     def disable_cache(self):
         self.cache = None
 
diff --git a/tractor/engine.py b/tractor/engine.py
index 5083070..5ba878b 100644
--- a/tractor/engine.py
+++ b/tractor/engine.py
@@ -158,13 +158,14 @@ class Tractor(MultiParams):
 
     # For pickling
     def __getstate__(self):
-        version = 1
+        version = 2
         S = (version, self.getImages(), self.getCatalog(), self.liquid,
              self.modtype, self.modelMasks, self.expectModelMasks,
-             self.optimizer)
+             self.optimizer, self.model_kwargs)
         return S
 
     def __setstate__(self, state):
+        self.model_kwargs = {}
         if len(state) == 6:
             # "backwards compat"
             (images, catalog, self.liquid, self.modtype, self.modelMasks,
@@ -174,6 +175,9 @@ class Tractor(MultiParams):
         elif len(state) == 8:
             (ver, images, catalog, self.liquid, self.modtype, self.modelMasks,
              self.expectModelMasks, self.optimizer) = state
+        elif len(state) == 9:
+            (ver, images, catalog, self.liquid, self.modtype, self.modelMasks,
+             self.expectModelMasks, self.optimizer, self.model_kwargs) = state
         self.subs = [images, catalog]
 
     def getNImages(self):
-- 
2.43.0


From 575d7d1c79a7a9a89f44fe022cb94c98cef8bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:17 +0000
Subject: [PATCH 03/34] fix: do not shift the shared mixture in place when
 rendering an NCircularGaussianPSF

---
 tractor/psf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 033a2da..8d49c4b 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -917,15 +917,13 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
             x1 = min(x1, xh)
             y0 = max(y0, yl)
             y1 = min(y1, yh)
-        # UGH - API question -- is the getMixtureOfGaussians() result read-only?
-        mix = self.getMixtureOfGaussians()
-        oldmean = mix.mean
+        # The getMixtureOfGaussians() result is shared, so work on a copy.
+        mix = self.getMixtureOfGaussians().copy()
         mix.mean = mix.mean.copy()
         mix.mean[:, 0] += px
         mix.mean[:, 1] += py
         p = mp.mixture_to_patch(mix, x0, x1, y0, y1, minval=minval,
                                 exactExtent=(modelMask is not None))
-        mix.mean = oldmean
         return p
 
 def getCircularMog(amps, sigmas):
-- 
2.43.0


From e4bfccdf76c8fb5ed5c5b9d4925b43ecb93b9802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:17 +0000
Subject: [PATCH 04/34] fix: NCircularGaussianPSF.hashkey and copy cover its
 frozen parameters too

---
 tractor/psf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 8d49c4b..5ec97b4 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -868,12 +868,12 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
         return getCircularMog(amps, sigs)
 
     def hashkey(self):
-        hk = ('NCircularGaussianPSF', tuple(self.sigmas), tuple(self.weights))
+        hk = ('NCircularGaussianPSF', tuple(self.mysigmas),
+              tuple(self.myweights))
         return hk
 
     def copy(self):
-        return NCircularGaussianPSF(list([s for s in self.sigmas]),
-                                    list([w for w in self.weights]))
+        return NCircularGaussianPSF(list(self.mysigmas), list(self.myweights))
 
     def applyTo(self, image):
         from scipy.ndimage.filters import gaussian_filter
-- 
2.43.0


From 1f414ed2598c8bde96353da77adffd87ea84daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:17 +0000
Subject: [PATCH 05/34] fix: normalized PSFs do not rescale the underlying
 PSF's own arrays in place

---
 tractor/psf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 5ec97b4..cdbbbe2 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -947,21 +947,21 @@ class NormalizedPsf(object):
         fft, (cx,cy), shape, (v,w) = super().getFourierTransform(px, py, radius)
         n = np.abs(fft[0][0])
         if n != 0:
-            fft /= n
+            fft = fft / n
         return fft, (cx,cy), shape, (v,w)
 
     def getImage(self, px, py):
         img = super().getImage(px, py)
         n = np.sum(img)
         if n != 0:
-            img /= n
+            img = img / n
         return img
 
     def _sampleImage(self, img, dx, dy, **kwargs):
         xl,yl,img = super()._sampleImage(img, dx, dy, **kwargs)
         n = img.sum()
         if n != 0:
-            img /= n
+            img = img / n
         return xl,yl,img
 
 class NormalizedPixelizedPsf(NormalizedPsf, PixelizedPSF):
-- 
2.43.0


From 06257848a598294aed5beaf0cde09d6c58e4bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:42 +0000
Subject: [PATCH 06/34] fix: setStepSizes with frozen parameters indexes its
 argument by thawed parameter

---
 tractor/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 2a30fa3..842c113 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -453,8 +453,8 @@ class NamedParams(object):
                     newss.append(1.)
             self.stepsizes = newss
         else:
-            for i, s in self._enumerateLiquidArray(ss):
-                self.stepsizes[i] = s
+            for i, j in self._indexBoth():
+                self.stepsizes[j] = ss[i]
 
     def setAllStepSizes(self, ss):
         self.stepsizes = ss
-- 
2.43.0


From 6c072e7ba4b4a740c2410e4b6f7b0e0f4307aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:42 +0000
Subject: [PATCH 07/34] fix: getGaussianPriors indexes thawed parameters and
 omits frozen ones

---
 tractor/utils.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 842c113..a776f0f 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -98,8 +98,21 @@ class _GaussianPriors(object):
             chisq += (p[i] - mu)**2 / sigma**2
         return -0.5 * chisq
 
-    def getGaussianPriors(self):
-        return [(i, mu, sigma) for name, i, mu, sigma in self.terms]
+    def getGaussianPriors(self, param=None):
+        '''
+        Returns a list of (index, mu, sigma), where *index* is among the
+        thawed parameters; terms on frozen parameters are omitted.
+        '''
+        if param is None:
+            param = self.param
+        priors = []
+        for name, j, mu, sigma in self.terms:
+            i = param.getLiquidIndexOfIndex(j)
+            # frozen:
+            if i == -1:
+                continue
+            priors.append((i, mu, sigma))
+        return priors
 
     def getDerivs(self, param=None):
         '''
@@ -163,7 +176,7 @@ class GaussianPriorsMixin(object):
         return self.gpriors.getDerivs(param=self)
 
     def getGaussianPriors(self):
-        return self.gpriors.getGaussianPriors()
+        return self.gpriors.getGaussianPriors(param=self)
 
     def isLegal(self):
         '''
-- 
2.43.0


From cd684f4ac7715eb3257c45ecd66c2996df312b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:42 +0000
Subject: [PATCH 08/34] fix: bounds and max steps have one entry per parameter
 for all Params classes

---
 tractor/utils.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index a776f0f..5d046ea 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -305,13 +305,13 @@ class BaseParams(object):
         return None
 
     def getLowerBounds(self):
-        return []
+        return [None] * self.numberOfParams()
 
     def getUpperBounds(self):
-        return []
+        return [None] * self.numberOfParams()
 
     def getMaxStep(self):
-        return []
+        return [None] * self.numberOfParams()
 
     def getGaussianPriors(self):
         return []
@@ -727,9 +727,10 @@ class ParamList(GaussianPriorsMixin, NamedParams, BaseParams):
 
     def __init__(self, *args):
         self.vals = list(args)
-        self.lowers = [None for v in self.vals]
-        self.uppers = [None for v in self.vals]
-        self.maxstep = [None for v in self.vals]
+        N = self._numberOfThings()
+        self.lowers = [None] * N
+        self.uppers = [None] * N
+        self.maxstep = [None] * N
         super(ParamList, self).__init__()
 
     def copy(self):
@@ -1293,7 +1294,11 @@ class NpArrayParams(ParamList):
         del self.vals
         # from NamedParams...
         # active/inactive
-        self.liquid = [True] * self._numberOfThings()
+        N = self._numberOfThings()
+        self.liquid = [True] * N
+        self.lowers = [None] * N
+        self.uppers = [None] * N
+        self.maxstep = [None] * N
 
     def __getattr__(self, name):
         if name == 'vals':
-- 
2.43.0


From ce1843ba1687fd970840210bd22ad0f79472f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:02 +0000
Subject: [PATCH 09/34] fix: reject a parameter vector of the wrong length
 before changing anything

---
 tractor/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tractor/utils.py b/tractor/utils.py
index 5d046ea..29aafb8 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -787,6 +787,7 @@ class ParamList(GaussianPriorsMixin, NamedParams, BaseParams):
         return oldval
 
     def setParams(self, p):
+        assert(len(p) == self.numberOfParams())
         for i, j in self._indexBoth():
             self._setThing(j, p[i])
 
@@ -807,6 +808,7 @@ class ParamList(GaussianPriorsMixin, NamedParams, BaseParams):
         return self._getThing(ii)
 
     def setAllParams(self, p):
+        assert(len(p) == self._numberOfThings())
         for i, pp in enumerate(p):
             self._setThing(i, pp)
 
@@ -1168,6 +1170,7 @@ class MultiParams(BaseParams, NamedParams):
         return p
 
     def setAllParams(self, p):
+        assert(len(p) == len(self.getAllParams()))
         i = 0
         for s in self.subs:
             if s is None:
@@ -1178,6 +1181,7 @@ class MultiParams(BaseParams, NamedParams):
         assert(i == len(self.getAllParams()))
 
     def setParams(self, p):
+        assert(len(p) == self.numberOfParams())
         i = 0
         for s in self._getActiveSubs():
             n = s.numberOfParams()
-- 
2.43.0


From f67d313f1ea24ea1ff416062cfcc00fed21b6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:17 +0000
Subject: [PATCH 10/34] fix: EllipseESoft.getAllStepSizes does not look for the
 e1,e2 of EllipseE

---
 tractor/ellipses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/ellipses.py b/tractor/ellipses.py
index f6810af..b8c8ffd 100644
--- a/tractor/ellipses.py
+++ b/tractor/ellipses.py
@@ -222,8 +222,9 @@ class EllipseESoft(EllipseE):
         ee2 = ee * math.sin(angle)
         return (math.log(r), ee1, ee2)
 
-    # def getAllStepSizes(self, *args, **kwargs):
-    #    return [0.01] * 3
+    def getAllStepSizes(self, *args, **kwargs):
+        # (the superclass has "e1","e2" parameters; we don't)
+        return list(self.stepsizes)
 
     def __repr__(self):
         return 'log r_e=%.3f, ee1=%.3f, ee2=%.3f' % (self.logre, self.ee1, self.ee2)
-- 
2.43.0


From d39308cecb8df0216f04ca402cca73c141d311dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:06 +0000
Subject: [PATCH 11/34] fix: copying a multi-band brightness keeps its frozen
 flags

---
 tractor/brightness.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 63f7237..9064ae5 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -60,7 +60,9 @@ class MultiBandBrightness(ParamList, ducks.Brightness):
                                    for i, k in enumerate(self.order)))
 
     def copy(self):
-        return self * 1.
+        cop = self * 1.
+        cop.liquid = [l for l in self.liquid]
+        return cop
 
     def getBand(self, band):
         return getattr(self, band)
-- 
2.43.0


From db79383c01b19138eb8046bca11b45725aac165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:45 +0000
Subject: [PATCH 12/34] fix: cached models are keyed by everything they depend
 on, not by a hash of part of it

The cache key was hash() of a key that left out the model mask, rendering
arguments, image size, photometric band, PSF sampling and class, PsfEx model
and pixel scale, so that a different model could be returned.
---
 tractor/brightness.py | 12 ++++++++++++
 tractor/cache.py      | 24 +++++++++++++++++++++---
 tractor/image.py      |  5 ++++-
 tractor/psf.py        | 11 ++++++++---
 tractor/psfex.py      |  5 ++++-
 tractor/wcs.py        |  5 +++--
 6 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 9064ae5..46c5a0b 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -64,6 +64,9 @@ class MultiBandBrightness(ParamList, ducks.Brightness):
         cop.liquid = [l for l in self.liquid]
         return cop
 
+    def hashkey(self):
+        return super(MultiBandBrightness, self).hashkey() + tuple(self.order)
+
     def getBand(self, band):
         return getattr(self, band)
 
@@ -253,6 +256,9 @@ class FluxesPhotoCal(BaseParams, ducks.ImageCalibration):
     def copy(self):
         return FluxesPhotoCal(self.band)
 
+    def hashkey(self):
+        return super(FluxesPhotoCal, self).hashkey() + (self.band,)
+
     def brightnessToCounts(self, brightness):
         flux = brightness.getFlux(self.band)
         return flux
@@ -283,6 +289,9 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
     def copy(self):
         return MagsPhotoCal(self.band, self.zp)
 
+    def hashkey(self):
+        return super(MagsPhotoCal, self).hashkey() + (self.band,)
+
     @staticmethod
     def getNamedParams():
         return dict(zp=0)
@@ -335,6 +344,9 @@ class LinearPhotoCal(ScalarParam, ducks.ImageCalibration):
     def copy(self):
         return self.__class__(self.getValue(), band=self.band)
 
+    def hashkey(self):
+        return super(LinearPhotoCal, self).hashkey() + (self.band,)
+
     def getScale(self):
         return self.val
 
diff --git a/tractor/cache.py b/tractor/cache.py
index 0375fa0..648c10c 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -26,10 +26,28 @@ class TractorCacheMixin(object):
     def getModelPatch(self, img, src, minsb=None, **kwargs):
         if self.cache is None:
             return super(TractorCacheMixin, self).getModelPatch(
-                img, src, **kwargs)
+                img, src, minsb=minsb, **kwargs)
 
-        deps = (img.hashkey(), src.hashkey())
-        deps = hash(deps)
+        # The model also depends on the model mask, and on any
+        # additional rendering arguments.
+        mask = self._getModelMaskFor(img, src)
+        if self.expectModelMasks and mask is None:
+            return None
+        if mask is not None:
+            mask = (mask.x0, mask.y0, mask.w, mask.h,
+                    None if mask.mask is None else mask.mask.tobytes())
+        kw = dict(self.model_kwargs, **kwargs)
+        # attributes (not parameters) that set the size of the model
+        size = tuple(getattr(src, k, None)
+                     for k in ['fixedRadius', 'minRadius', 'halfsize', 'nre'])
+        deps = (img.hashkey(), src.hashkey(), size, mask,
+                tuple(sorted(kw.items())))
+        try:
+            hash(deps)
+        except TypeError:
+            # rendering arguments that can't be part of a cache key
+            return super(TractorCacheMixin, self).getModelPatch(
+                img, src, minsb=minsb, **kwargs)
         mv, mod = self.cache.get(deps, (0., None))
         if minsb is None:
             minsb = img.modelMinval
diff --git a/tractor/image.py b/tractor/image.py
index 970aeb7..827d022 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -152,7 +152,10 @@ class Image(MultiParams):
         return self.getShape()
 
     def hashkey(self):
-        return ('Image', id(self.data), id(self.inverr), self.psf.hashkey(),
+        return ('Image', id(self.data), id(self.inverr), self.shape,
+                (self.time.hashkey() if hasattr(self.time, 'hashkey')
+                 else self.time),
+                self.psf.hashkey(),
                 self.sky.hashkey(), self.wcs.hashkey(),
                 self.photocal.hashkey())
 
diff --git a/tractor/psf.py b/tractor/psf.py
index cdbbbe2..8a32eeb 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -115,10 +115,12 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         return (self.H, self.W)
 
     def hashkey(self):
-        return ('PixelizedPSF', tuple(self.img.ravel()))
+        return (self.__class__.__name__, self.sampling, self.Lorder,
+                self.img.shape, tuple(self.img.ravel()))
 
     def copy(self):
-        return self.__class__(self.img.copy())
+        return self.__class__(self.img.copy(), sampling=self.sampling,
+                              Lorder=self.Lorder)
 
     def getShifted(self, x0, y0):
         # not spatially varying
@@ -625,7 +627,10 @@ class HybridPixelizedPSF(HybridPSF):
     def copy(self):
         s = self.__class__(self.pix.copy(), self.gauss.copy())
         return s
-        
+
+    def hashkey(self):
+        return ('HybridPixelizedPSF', self.pix.hashkey(), self.gauss.hashkey())
+
     def getMixtureOfGaussians(self, **kwargs):
         return self.gauss.getMixtureOfGaussians(**kwargs)
 
diff --git a/tractor/psfex.py b/tractor/psfex.py
index 6d58f1e..e6e12a5 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -443,7 +443,10 @@ class PixelizedPsfEx(PixelizedPSF):
         return 'PixelizedPsfEx'
 
     def hashkey(self):
-        return ('PixelizedPsfEx', self.fn, self.ext)
+        p = self.psfex
+        return (self.__class__.__name__, self.fn, self.ext, p.x0, p.y0,
+                p.xscale, p.yscale, p.degree, p.sampling,
+                p.psfbases.shape, p.psfbases.tobytes())
 
     def copy(self):
         psfex = self.psfex.copy()
diff --git a/tractor/wcs.py b/tractor/wcs.py
index 36ca902..5044daf 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -20,7 +20,7 @@ class NullWCS(BaseParams, ducks.WCS):
         self.setPixscale(pixscale)
 
     def hashkey(self):
-        return ('NullWCS', self.dx, self.dy)
+        return ('NullWCS', self.dx, self.dy, self.pixscale)
 
     def setPixscale(self, pixscale):
         self.pixscale = pixscale
@@ -170,7 +170,8 @@ class ConstantFitsWcs(ParamList, ducks.WCS):
         self.pixscale = self.wcs.pixel_scale()
 
     def hashkey(self):
-        return (self.x0, self.y0, id(self.wcs))
+        # holding the object itself (not its id), so that the id is not reused
+        return (self.x0, self.y0, self.wcs)
 
     def copy(self):
         copy = ConstantFitsWcs(self.wcs)
-- 
2.43.0


From d80b7934dcd079cc8affafebd4976eb029603e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:18 +0000
Subject: [PATCH 13/34] fix: a Cache may be shared by threads, replacing an
 item evicts no other, mpcache imports

---
 tractor/cache.py   | 31 ++++++++++++++++++++++++++++++-
 tractor/mpcache.py |  3 +--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index 648c10c..9f24d7b 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -1,4 +1,6 @@
 from __future__ import print_function
+import functools
+import threading
 
 
 class TractorCacheMixin(object):
@@ -82,20 +84,41 @@ License: Python Software Foundation (PSF) license.
 '''
 
 
+def locked(func):
+    '''Decorator for Cache methods: one thread at a time.'''
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        with self.lock:
+            return func(self, *args, **kwargs)
+    return wrapper
+
+
 class Cache(object):
     class Entry(object):
         pass
 
     def __init__(self, maxsize=1000, sizeattr='size'):
+        self.lock = threading.RLock()
         self.clear()
         self.maxsize = maxsize
         self.sizeattr = sizeattr
 
+    # For pickling: locks can't be.
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        del state['lock']
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.lock = threading.RLock()
+
     def __del__(self):
         # OrderedDict objects seem to be prone to leaving garbage around...
         self.clear()
         del self.dict
 
+    @locked
     def clear(self):
         if not hasattr(self, 'dict'):
             self.dict = OrderedDict()
@@ -114,6 +137,7 @@ class Cache(object):
         self.hits = 0
         self.misses = 0
 
+    @locked
     def __setitem__(self, key, val):
         sz = 0
         if hasattr(val, self.sizeattr):
@@ -125,11 +149,16 @@ class Cache(object):
         e.val = val
         e.size = sz
         e.hits = 0
+        # replacing an item needs no room; it becomes the most recent one
+        self.dict.pop(key, None)
+        if self.maxsize <= 0:
+            return
         # purge LRU item
         if len(self.dict) >= self.maxsize:
             self.dict.popitem(0)
         self.dict[key] = e
 
+    @locked
     def __getitem__(self, key):
         # pop
         try:
@@ -247,4 +276,4 @@ class NullCache(object):
         return 0
 
     def __len__(self):
-        return len(self.dict)
+        return 0
diff --git a/tractor/mpcache.py b/tractor/mpcache.py
index 6135b23..db68b52 100644
--- a/tractor/mpcache.py
+++ b/tractor/mpcache.py
@@ -1,8 +1,7 @@
 from __future__ import print_function
 from multiprocessing import Manager
 from multiprocessing.managers import BaseManager
-#from .cache import Cache
-from cache import Cache
+from tractor.cache import Cache
 
 
 class CacheManager(BaseManager):
-- 
2.43.0


From bb7b96f58975dc3bf9698483287b38d0bed711ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 14/34] fix: cached models also depend on the image's
 modelMinval

---
 tractor/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index 9f24d7b..ea55821 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -42,7 +42,7 @@ class TractorCacheMixin(object):
         # attributes (not parameters) that set the size of the model
         size = tuple(getattr(src, k, None)
                      for k in ['fixedRadius', 'minRadius', 'halfsize', 'nre'])
-        deps = (img.hashkey(), src.hashkey(), size, mask,
+        deps = (img.hashkey(), img.modelMinval, src.hashkey(), size, mask,
                 tuple(sorted(kw.items())))
         try:
             hash(deps)
-- 
2.43.0


From cf1916c1dba0eecd4cf00a6536d15c877944f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:54 +0000
Subject: [PATCH 15/34] fix: an operation that fails part way puts back the
 parameters, images and error settings

---
 tractor/basics.py                |  3 ++-
 tractor/ceres_optimizer.py       |  2 ++
 tractor/constrained_optimizer.py |  2 ++
 tractor/engine.py                |  3 ++-
 tractor/galaxy.py                |  5 ++++-
 tractor/gpu_optimizer.py         | 15 +++++++++++----
 tractor/lsqr_optimizer.py        |  8 +++++---
 tractor/motion.py                |  1 +
 tractor/optimize.py              |  3 +++
 tractor/pointsource.py           |  3 ++-
 tractor/sersic.py                |  1 +
 tractor/utils.py                 | 26 ++++++++++++++++++++++++++
 12 files changed, 61 insertions(+), 11 deletions(-)

diff --git a/tractor/basics.py b/tractor/basics.py
index 3bfa7ad..88480b1 100644
--- a/tractor/basics.py
+++ b/tractor/basics.py
@@ -15,7 +15,7 @@ import numpy as np
 
 from tractor.image import Image
 from tractor.patch import Patch
-from tractor.utils import MultiParams
+from tractor.utils import MultiParams, unchanged_on_error
 from tractor import mixture_profiles as mp
 
 from tractor.tractortime import TAITime
@@ -77,6 +77,7 @@ class ConstantSurfaceBrightness(MultiParams, Source):
         mod[:,:] = counts * pixscale**2
         return Patch(mx0, my0, mod)
 
+    @unchanged_on_error
     def getParamDerivatives(self, img, modelMask=None, **kwargs):
         bright_frozen = self.isParamFrozen('brightness')
         if bright_frozen:
diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 13a7b91..443cf3d 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -5,6 +5,7 @@ from astrometry.util.ttime import Time
 
 from tractor.engine import logverb
 from tractor.optimize import Optimizer
+from tractor.utils import unchanged_on_error
 
 
 class CeresOptimizer(Optimizer):
@@ -54,6 +55,7 @@ class CeresOptimizer(Optimizer):
         X = self._ceres_opt(tractor, **kwargs)
         return X
 
+    @unchanged_on_error
     def _ceres_opt(self, tractor, variance=False, scale_columns=True,
                    numeric=False, scaled=True, numeric_stepsize=0.1,
                    dynamic_scale=True,
diff --git a/tractor/constrained_optimizer.py b/tractor/constrained_optimizer.py
index 1939e71..c75edbf 100644
--- a/tractor/constrained_optimizer.py
+++ b/tractor/constrained_optimizer.py
@@ -1,4 +1,5 @@
 from tractor.lsqr_optimizer import LsqrOptimizer
+from tractor.utils import unchanged_on_error
 import numpy as np
 
 class ConstrainedOptimizer(LsqrOptimizer):
@@ -33,6 +34,7 @@ class ConstrainedOptimizer(LsqrOptimizer):
                  ever_hit_limit=self.hit_limit)
         return R
 
+    @unchanged_on_error
     def tryUpdates(self, tractor, X, alphas=None, check_step=None):
         p_best = tractor.getParams()
         logprob_before = tractor.getLogProb()
diff --git a/tractor/engine.py b/tractor/engine.py
index 5ba878b..87edec6 100644
--- a/tractor/engine.py
+++ b/tractor/engine.py
@@ -13,7 +13,7 @@ import logging
 
 import numpy as np
 
-from tractor.utils import MultiParams, _isint, get_class_from_name
+from tractor.utils import MultiParams, _isint, get_class_from_name, unchanged_on_error
 from tractor.patch import Patch, ModelMask
 from tractor.image import Image
 
@@ -280,6 +280,7 @@ class Tractor(MultiParams):
         kw.update(kwargs)
         return self.optimizer.optimize_loop(self, **kw)
 
+    @unchanged_on_error
     def getDerivs(self, **kwargs):
         '''
         Computes model-image derivatives for each parameter.
diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 27117ac..757aeee 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -16,7 +16,7 @@ import numpy as np
 import warnings
 
 from tractor import mixture_profiles as mp
-from tractor.utils import ParamList, MultiParams, ScalarParam, BaseParams
+from tractor.utils import ParamList, MultiParams, ScalarParam, BaseParams, unchanged_on_error
 from tractor.patch import Patch, add_patches, ModelMask
 from tractor.basics import SingleProfileSource, BasicSource
 
@@ -134,6 +134,7 @@ class Galaxy(MultiParams, SingleProfileSource):
 
     # returns [ Patch, Patch, ... ] of length numberOfParams().
     # Galaxy.
+    @unchanged_on_error
     def getParamDerivatives(self, img, modelMask=None, get_patch0=False, **kwargs):
         pos0 = self.getPosition()
         wcs = img.getWcs()
@@ -939,6 +940,7 @@ class FixedCompositeGalaxy(MultiParams, ProfileGalaxy, SingleProfileSource):
                      self.shapeExp.hashkey(),
                      self.fracDev.hashkey()))
 
+    @unchanged_on_error
     def getParamDerivatives(self, img, modelMask=None, **kwargs):
         e = ExpGalaxy(self.pos, self.brightness, self.shapeExp)
         d = DevGalaxy(self.pos, self.brightness, self.shapeDev)
@@ -1107,6 +1109,7 @@ class CompositeGalaxy(MultiParams, BasicSource):
     # MAGIC: ORDERING OF EXP AND DEV PARAMETERS
     # MAGIC: ASSUMES EXP AND DEV SHAPES SAME LENGTH
     # CompositeGalaxy.
+    @unchanged_on_error
     def getParamDerivatives(self, img, modelMask=None, **kwargs):
         e = ExpGalaxy(self.pos, self.brightnessExp, self.shapeExp)
         d = DevGalaxy(self.pos, self.brightnessDev, self.shapeDev)
diff --git a/tractor/gpu_optimizer.py b/tractor/gpu_optimizer.py
index 4248206..830354b 100644
--- a/tractor/gpu_optimizer.py
+++ b/tractor/gpu_optimizer.py
@@ -5,6 +5,7 @@ from tractor.smarter_dense_optimizer import SmarterDenseOptimizer
 from tractor import ProfileGalaxy, HybridPSF, ConstantSky, PointSource, Patch
 from tractor.brightness import LinearPhotoCal
 from tractor.basics import ConstantSurfaceBrightness
+from tractor.utils import unchanged_on_error
 
 import logging
 logger = logging.getLogger('tractor.gpu_optimizer')
@@ -181,6 +182,7 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         assert(all([m is not None for m in masks]))
         return tims, masks
 
+    @unchanged_on_error
     def gpu_one_source_try_updates(self, tr, X, alphas=None, ps=None, **kwargs):
         cp = self.cp
         nu = cp.newaxis
@@ -306,8 +308,10 @@ class GpuOptimizer(GpuFriendlyOptimizer):
             ip = self.image_params
             self.image_params = None
             tr.setParams(p0)
-            dlnp,a = self.gpu_one_source_try_updates(tr, X, alphas=alphas, **kwargs)
-            self.image_params = ip
+            try:
+                dlnp,a = self.gpu_one_source_try_updates(tr, X, alphas=alphas, **kwargs)
+            finally:
+                self.image_params = ip
             return dlnp,a
 
         pH, pW = img_params.pH, img_params.pW
@@ -464,6 +468,7 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         tr.setParams(p_best)
         return dlogprob_best, alpha_best
 
+    @unchanged_on_error
     def gpu_one_source_update(self, tr, priors=True, get_A=False, **kwargs):
         cp = self.cp
         nu = cp.newaxis
@@ -531,8 +536,10 @@ class GpuOptimizer(GpuFriendlyOptimizer):
                     (dx_vals[i0], dy_vals[i0]))
             ip = self.image_params
             self.image_params = None
-            x = self.gpu_one_source_update(tr, priors=priors, **kwargs)
-            self.image_params = ip
+            try:
+                x = self.gpu_one_source_update(tr, priors=priors, **kwargs)
+            finally:
+                self.image_params = ip
             return x
 
         if is_galaxy:
diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index ad89c3d..cd8cc9f 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -3,7 +3,7 @@ import numpy as np
 from astrometry.util.ttime import Time
 from tractor.engine import logverb, isverbose, logmsg
 from tractor.optimize import Optimizer
-from tractor.utils import listmax
+from tractor.utils import listmax, unchanged_on_error
 
 
 class LsqrOptimizer(Optimizer):
@@ -277,6 +277,7 @@ class LsqrOptimizer(Optimizer):
         #print (f"LSQR {X=}")
         return X
 
+    @unchanged_on_error
     def optimize(self, tractor, alphas=None, damp=0, priors=True,
                  scale_columns=True,
                  shared_params=True, variance=False, just_variance=False,
@@ -325,6 +326,7 @@ class LsqrOptimizer(Optimizer):
         R.update(steps=step)
         return R
 
+    @unchanged_on_error
     def getUpdateDirection(self, tractor, allderivs, damp=0., priors=True,
                            scale_columns=True, scales_only=False,
                            chiImages=None, variance=False,
@@ -592,8 +594,8 @@ class LsqrOptimizer(Optimizer):
         except ZeroDivisionError:
             print('ZeroDivisionError caught.  Returning zero.')
             bail = True
-        # finally:
-        np.seterr(**oldsettings)
+        finally:
+            np.seterr(**oldsettings)
 
         del A
         del b
diff --git a/tractor/motion.py b/tractor/motion.py
index cbdcac0..7250fc6 100644
--- a/tractor/motion.py
+++ b/tractor/motion.py
@@ -122,6 +122,7 @@ class MovingPointSource(PointSource):
             px, py, minval=minval, modelMask=modelMask, **kwargs)
         return patch
 
+    @unchanged_on_error
     def getParamDerivatives(self, img, modelMask=None, **kwargs):
         '''
         MovingPointSource derivatives.
diff --git a/tractor/optimize.py b/tractor/optimize.py
index ab58a65..2cb1607 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -2,6 +2,7 @@ from __future__ import print_function
 import numpy as np
 from astrometry.util.ttime import Time
 from tractor.engine import logverb, OptResult, logmsg
+from tractor.utils import unchanged_on_error
 
 
 class Optimizer(object):
@@ -13,6 +14,7 @@ class Optimizer(object):
     def optimize_loop(self, tractor, **kwargs):
         pass
 
+    @unchanged_on_error
     def forced_photometry(self, tractor,
                           alphas=None, damp=0, priors=False,
                           minsb=0.,
@@ -422,6 +424,7 @@ class Optimizer(object):
                 mm[slc] = 0.
         return IV
 
+    @unchanged_on_error
     def tryUpdates(self, tractor, X, alphas=None):
         if alphas is None:
             # 1/1024 to 1 in factors of 2, + sqrt(2.) + 2.
diff --git a/tractor/pointsource.py b/tractor/pointsource.py
index f559106..1d84378 100644
--- a/tractor/pointsource.py
+++ b/tractor/pointsource.py
@@ -1,7 +1,7 @@
 from __future__ import print_function
 import numpy as np
 
-from tractor.utils import MultiParams
+from tractor.utils import MultiParams, unchanged_on_error
 from tractor.patch import ModelMask
 from tractor import ducks
 
@@ -127,6 +127,7 @@ class PointSource(MultiParams, SingleProfileSource):
     def _getPsf(self, img):
         return img.getPsf()
 
+    @unchanged_on_error
     def getParamDerivatives(self, img, fastPosDerivs=True, modelMask=None,
                             **kwargs):
         '''
diff --git a/tractor/sersic.py b/tractor/sersic.py
index 33263c5..b18717b 100644
--- a/tractor/sersic.py
+++ b/tractor/sersic.py
@@ -399,6 +399,7 @@ class SersicGalaxy(HoggGalaxy):
                      self.shape.hashkey(),
                      self.sersicindex.hashkey()))
 
+    @unchanged_on_error
     def getParamDerivatives(self, img, modelMask=None, **kwargs):
         # superclass produces derivatives wrt pos, brightness, and shape.
         derivs = super().getParamDerivatives(
diff --git a/tractor/utils.py b/tractor/utils.py
index 29aafb8..df2f5a3 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -48,6 +48,32 @@ def get_class_from_name(objclass):
     return clazz
 
 
+def unchanged_on_error(func):
+    '''
+    Decorator for a method that temporarily changes the parameters of
+    an object: if the method fails (or is interrupted), the parameters
+    are put back to what they were when it was called.
+
+    The object is the first argument if that is a Tractor (ie, for an
+    Optimizer method), otherwise *self*.
+    '''
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        obj = self
+        if len(args) and hasattr(args[0], 'catalog'):
+            obj = args[0]
+        p0 = obj.getParams()
+        images = getattr(obj, 'images', None)
+        try:
+            return func(self, *args, **kwargs)
+        except BaseException:
+            if images is not None:
+                obj.images = images
+            obj.setParams(p0)
+            raise
+    return wrapper
+
+
 def listmax(X, default=0):
     mx = [np.max(x) for x in X if len(x)]
     if len(mx) == 0:
-- 
2.43.0


From fcf07689995d764eeb74ba4ca9b1221954e26bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:10 +0000
Subject: [PATCH 16/34] fix: Ceres optimizer: pass on errors from callbacks,
 keep the starting point on failure, use all images, fill in zero derivatives,
 nonneg and sky fits

---
 tractor/ceres-tractor.cc   |  8 ++++++++
 tractor/ceres.i            | 18 ++++++++++++++++--
 tractor/ceres_optimizer.py |  8 +++++---
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/tractor/ceres-tractor.cc b/tractor/ceres-tractor.cc
index c036df9..f7ee9cb 100644
--- a/tractor/ceres-tractor.cc
+++ b/tractor/ceres-tractor.cc
@@ -227,6 +227,10 @@ bool ImageCostFunction::_Evaluate(double const* const* parameters,
                                   double** jacobians) const {
     const std::vector<int32_t> bs = parameter_block_sizes();
 
+    // An earlier callback failed -- don't call into python again.
+    if (PyErr_Occurred())
+        return false;
+
     /*
     printf("ImageCostFunction::Evaluate\n");
      printf("Parameter blocks: (%i)\n", (int)(bs.size()));
@@ -322,6 +326,10 @@ bool ImageCostFunction::_Evaluate(double const* const* parameters,
         Py_XDECREF(allderivs);
         return false;
     }
+    // Parameters that don't affect this image don't appear in "allderivs".
+    for (size_t i=0; i<bs.size(); i++)
+        if (jacobians[i])
+            memset(jacobians[i], 0, bs[i] * _npix * sizeof(double));
     int n = (int)PyList_Size(allderivs);
     //printf("Got %i derivatives\n", n);
     for (int ideriv=0; ideriv<n; ideriv++) {
diff --git a/tractor/ceres.i b/tractor/ceres.i
index 219580c..9e86df6 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -402,6 +402,7 @@ static PyObject* ceres_opt(PyObject* tractor,
     int variance_ok = 0;
     DlnpCallback cb(dlnp, (print_progress!=0));
     PyArrayObject *np_params, *np_variance=NULL;
+    PyArrayObject *np_trial;
 
     assert(PyArray_Check(py_params));
     np_params = (PyArrayObject*)py_params;
@@ -413,6 +414,11 @@ static PyObject* ceres_opt(PyObject* tractor,
     }
     nparams = (int)PyArray_SIZE(np_params);
     params = (double*)PyArray_DATA(np_params);
+    // Trial parameter values are passed to the callbacks in a separate
+    // array: np_params must hold the starting point if Ceres fails.
+    np_trial = (PyArrayObject*)PyArray_NewCopy(np_params, NPY_CORDER);
+    if (!np_trial)
+        return NULL;
 
     get_variance = (py_variance != Py_None);
 
@@ -426,7 +432,7 @@ static PyObject* ceres_opt(PyObject* tractor,
 
     for (i=0; i<nims; i++) {
         ImageCostFunction* icf = new ImageCostFunction
-            (tractor, i, nparams, np_params);
+            (tractor, i, nparams, np_trial);
         CostFunction* cost = NULL;
         if (numeric) {
 #if ( ((CERES_VERSION_MAJOR == 1) && (CERES_VERSION_MINOR >= 12)) || \
@@ -444,7 +450,7 @@ static PyObject* ceres_opt(PyObject* tractor,
                 (new NumericDiffImageCost(icf), ceres::TAKE_OWNERSHIP,
                  numeric_stepsize);
 #endif
-            for (i=0; i<nparams; i++)
+            for (int j=0; j<nparams; j++)
                 dyncost->AddParameterBlock(1);
             dyncost->SetNumResiduals(icf->nPix());
             cost = dyncost;
@@ -590,6 +596,12 @@ static PyObject* ceres_opt(PyObject* tractor,
     //printf("%s\n", summary.BriefReport().c_str());
     //printf("%s\n", summary.FullReport().c_str());
 
+    // A callback raised an exception: pass it on to our caller.
+    if (PyErr_Occurred()) {
+        Py_DECREF(np_trial);
+        return NULL;
+    }
+
     if (get_variance && (summary.termination_type == ceres::CONVERGENCE)) {
         if (!PyArray_Check(py_variance)) {
             printf("ceres_opt: variance must be a numpy array\n");
@@ -631,6 +643,8 @@ static PyObject* ceres_opt(PyObject* tractor,
             covariance.GetCovarianceBlock(params+i, params+i, cov_out+i);
     }
 
+    Py_DECREF(np_trial);
+
     const char* errstring = summary.message.c_str();
 
     return Py_BuildValue
diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 443cf3d..dc05e15 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -337,7 +337,8 @@ class CeresOptimizer(Optimizer):
         if wantims0:
             t0 = Time()
             params = tractor.getParams()
-            result.ims0 = self._getims(params, imlist, umodels, mods0, scales,
+            # (the sky parameters come first)
+            result.ims0 = self._getims(params[Nsky:], imlist, umodels, mods0, scales,
                                        sky, minFlux, None)
             logverb('forced phot: ims0', Time() - t0)
 
@@ -364,7 +365,8 @@ class CeresOptimizer(Optimizer):
         if nonneg:
             # Initial run with nonneg=False, to get in the ballpark
             x = ceres_forced_phot(blocks, fluxes, 0, iverbose, ithreads)
-            assert(x == 0)
+            # (ceres::FAILURE)
+            assert(x['termination'] != 2)
             logverb('forced phot: ceres initial run', Time() - t0)
             t0 = Time()
             if negfluxval is not None:
@@ -383,7 +385,7 @@ class CeresOptimizer(Optimizer):
 
         if wantims1:
             t0 = Time()
-            result.ims1 = self._getims(params, imlist, umodels, mods0, scales,
+            result.ims1 = self._getims(params[Nsky:], imlist, umodels, mods0, scales,
                                        sky, minFlux, None)
             logverb('forced phot: ims1:', Time() - t0)
         return x
-- 
2.43.0


From ab2758e7d80f9b3fc4c937817c31864e19255a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 17/34] fix: forced photometry: regions of interest use the
 image pixels, frozen sources do not shift the statistics, sky variances,
 accepted sky step

---
 tractor/lsqr_optimizer.py | 6 +++---
 tractor/optimize.py       | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index cd8cc9f..4821359 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -110,6 +110,8 @@ class LsqrOptimizer(Optimizer):
                                         priors=priors,
                                         scale_columns=False, chiImages=chis0,
                                         shared_params=shared_params)
+            if rois is not None:
+                tractor.images = realims
             if X is None or len(X) == 0:
                 print('Error getting update direction')
                 break
@@ -117,8 +119,6 @@ class LsqrOptimizer(Optimizer):
             #topt = Time() - t0
             #logverb('forced phot: opt:', topt)
             #print('forced phot: update', X)
-            if rois is not None:
-                tractor.images = realims
 
             # tryUpdates():
             if alphas is None:
@@ -187,7 +187,7 @@ class LsqrOptimizer(Optimizer):
                 tractor.catalog.setParams(pa)
 
                 if sky:
-                    tractor.images.setParams([p + alpha * d for p, d
+                    tractor.images.setParams([p + alphaBest * d for p, d
                                               in zip(p0sky, Xsky)])
 
                 dlogprob = lnpBest - lnp0
diff --git a/tractor/optimize.py b/tractor/optimize.py
index 2cb1607..f678763 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -295,7 +295,7 @@ class Optimizer(object):
         # for each source:
         for si, uis in enumerate(umodsforsource):
             # print 'fit stats for source', si, 'of', len(umodsforsource)
-            src = catalog[si]
+            src = srcs[si]
             # for each image
             for imi, (umods, scale, tim, (img, mod, ie, chi, roi)) in enumerate(
                     zip(umodels, scales, imlist, imsBest)):
@@ -387,7 +387,7 @@ class Optimizer(object):
         IV = np.zeros(Nsky + Nsourceparams)
         # sky derivs first
         if sky and skyvariance:
-            for di, (dsky, tim) in enumerate(skyderivs):
+            for di, [(dsky, tim)] in enumerate(skyderivs):
                 ie = tim.getInvError()
                 if dsky.shape == tim.shape:
                     dchi2 = np.sum((dsky.patch * ie)**2)
@@ -505,7 +505,7 @@ class Optimizer(object):
             im = img.getImage()
             if roi is not None:
                 ie = ie[roi]
-                im = ie[roi]
+                im = im[roi]
             chi = (im - mod) * ie
 
             # DEBUG
-- 
2.43.0


From 304aa5d4b05c3b2b00cca4fd6b6e3bf95f8cc873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:14 +0000
Subject: [PATCH 18/34] fix: an interrupt while a Patch is made or positions
 are converted is not swallowed

---
 tractor/basics.py | 2 +-
 tractor/patch.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/basics.py b/tractor/basics.py
index 88480b1..1acace8 100644
--- a/tractor/basics.py
+++ b/tractor/basics.py
@@ -159,7 +159,7 @@ class TractorWCSWrapper(object):
                 x += 1 - self.x0
                 y += 1 - self.y0
                 return ok, x, y
-            except:
+            except Exception:
                 pass
 
         x, y = self.wcs.positionToPixel(RaDecPos(ra, dec))
diff --git a/tractor/patch.py b/tractor/patch.py
index 4e5e120..3237fa1 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -88,7 +88,7 @@ class Patch(object):
             try:
                 H, W = patch.shape
                 self.size = H * W
-            except:
+            except Exception:
                 pass
 
     @property
-- 
2.43.0


From 71bf561deb2284355ff48577e19c439af28b33d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:28 +0000
Subject: [PATCH 19/34] fix: shared_params optimization when the last
 parameters do not affect the images

---
 tractor/lsqr_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 4821359..e3d3e8a 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -503,7 +503,8 @@ class LsqrOptimizer(Optimizer):
             # print('After:')
             #print('spcols:', len(spcols), 'elements')
             #print('  ', len(set(spcols)), 'unique')
-            Ncols = np.max(spcols) + 1
+            # (the last parameters may have no derivatives)
+            Ncols = np.max(paramindexmap) + 1
             logverb('Set Ncols=', Ncols)
 
         # b = chi
-- 
2.43.0


From 11fb2e7b9fbd670c887972b0cf126c399093356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:01 +0000
Subject: [PATCH 20/34] fix: batched optimizer: a failed or non-finite solve
 means no step, as in the dense optimizers; priors on unobserved bands

---
 tractor/gpu_optimizer.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tractor/gpu_optimizer.py b/tractor/gpu_optimizer.py
index 830354b..48d8016 100644
--- a/tractor/gpu_optimizer.py
+++ b/tractor/gpu_optimizer.py
@@ -755,10 +755,13 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         if Npriors > 0:
             rA, cA, vA, pb, mub = priorVals
             for ri,ci,vi,bi in zip(rA, cA, vA, pb):
+                # Map the source's parameter index to our local fitting parameter index
+                fi = src_to_fit_param.get(ci, None)
+                if fi is None:
+                    # eg, flux in a band for which we have no images
+                    continue
                 for rij,vij,bij in zip(ri, vi, bi):
-                    # Map the source's parameter index to our local fitting parameter index
-                    ci = src_to_fit_param[ci]
-                    A[Npix_total + rij, ci] = vij
+                    A[Npix_total + rij, fi] = vij
                     B[Npix_total + rij] += bij
             del priorVals, rA, cA, vA, pb, mub
 
@@ -793,7 +796,11 @@ class GpuOptimizer(GpuFriendlyOptimizer):
                 del goodrows
 
         A /= colscales[nu, :]
-        X,_,_,_ = cp.linalg.lstsq(A, B, rcond=None)
+        try:
+            X,_,_,_ = cp.linalg.lstsq(A, B, rcond=None)
+        except np.linalg.LinAlgError as e:
+            logmsg('Exception in lstsq:', e)
+            return None
         X /= colscales
 
         X = cp.get(X)
@@ -804,7 +811,8 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         Nout = N_src_params + N_sb_bands
         sX = np.zeros(Nout, np.float32)
         sX[I] = X
-        assert(np.all(np.isfinite(sX)))
+        if not np.all(np.isfinite(sX)):
+            return None
 
         if get_A:
             sA = np.zeros((Nrows, Nout), np.float32)
-- 
2.43.0


From de32e8a9a6b1f72744168d22d723d442eb9c7fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:01 +0000
Subject: [PATCH 21/34] fix: a non-finite update direction, or a failed Ceres
 fit, means no step

---
 tractor/ceres_optimizer.py | 4 ++++
 tractor/lsqr_optimizer.py  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index dc05e15..d061e52 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -45,6 +45,10 @@ class CeresOptimizer(Optimizer):
         #print('optimize:', X)
         chisq0 = X['initial_cost']
         chisq1 = X['final_cost']
+        # (ceres::FAILURE)
+        if X['termination'] == 2:
+            # the parameters have not been changed
+            chisq1 = chisq0
         if variance:
             # dlnp, dparams, alpha, variance
             return chisq0 - chisq1, None, 1, X['variance']
diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index e3d3e8a..b828392 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -637,6 +637,9 @@ class LsqrOptimizer(Optimizer):
             X[colscales > 0] /= colscales[colscales > 0]
         logverb('  X=', X)
 
+        if not np.all(np.isfinite(X)):
+            return None
+
         if variance:
             if shared_params:
                 # Unapply shared parameter map.
-- 
2.43.0


From 72b7e6238c668fa3d869b3704d7fa66064468275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:17 +0000
Subject: [PATCH 22/34] fix: batched optimizer: flux derivatives include the
 photometric calibration scale

---
 tractor/gpu_optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tractor/gpu_optimizer.py b/tractor/gpu_optimizer.py
index 48d8016..5c91264 100644
--- a/tractor/gpu_optimizer.py
+++ b/tractor/gpu_optimizer.py
@@ -713,7 +713,9 @@ class GpuOptimizer(GpuFriendlyOptimizer):
                 # Image i fills in the column corresponding to its flux
                 # and a block of rows corresponding to its pixels.
                 col = Npos + tim_band_index[i]
-                A[i * pH*pW: (i+1) * pH*pW, col] = (G[i, 0, :, :] * padie[i, :, :]).ravel()
+                # (the photocal scale converts from flux to counts)
+                scale = float(tims[i].getPhotoCal().getScale())
+                A[i * pH*pW: (i+1) * pH*pW, col] = (scale * G[i, 0, :, :] * padie[i, :, :]).ravel()
             # We *could* form the *col* into an array and do this as a
             # one-liner; not sure that would be faster.
 
@@ -740,8 +742,8 @@ class GpuOptimizer(GpuFriendlyOptimizer):
                 # Image i fills in the column corresponding to its sb flux
                 # and a block of rows corresponding to its pixels.
                 col = Npos + Nbands + Nshapes + tim_band_index[i]
-                # FIXME -- here we must be assuming LinearPhotoCal with scale = 1!
-                A[i * pH*pW: (i+1) * pH*pW, col] = (pixscales[i]**2 * padie[i, :, :].ravel())
+                scale = float(tims[i].getPhotoCal().getScale())
+                A[i * pH*pW: (i+1) * pH*pW, col] = (scale * pixscales[i]**2 * padie[i, :, :].ravel())
 
         if sb and src:
             # add current surface brightnesses to the model
-- 
2.43.0


From 10e46904bb0ba07379bec111b726f242b9f53092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:20 +0000
Subject: [PATCH 23/34] fix: Ceres optimizer: report the cost at the returned
 parameters, keep unchanged parameters exactly

---
 tractor/ceres.i            | 10 +++++++++-
 tractor/ceres_optimizer.py |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/tractor/ceres.i b/tractor/ceres.i
index 9e86df6..e69a480 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -645,6 +645,14 @@ static PyObject* ceres_opt(PyObject* tractor,
 
     Py_DECREF(np_trial);
 
+    // summary.final_cost also covers rejected trial steps; we want the cost
+    // at the parameters being returned.
+    double final_cost = summary.initial_cost;
+    for (size_t k=0; k<summary.iterations.size(); k++)
+        if (summary.iterations[k].step_is_successful &&
+            (summary.iterations[k].cost < final_cost))
+            final_cost = summary.iterations[k].cost;
+
     const char* errstring = summary.message.c_str();
 
     return Py_BuildValue
@@ -652,7 +660,7 @@ static PyObject* ceres_opt(PyObject* tractor,
          "termination", int(summary.termination_type),
          "error", errstring,
          "initial_cost", summary.initial_cost,
-         "final_cost", summary.final_cost,
+         "final_cost", final_cost,
          "fixed_cost", summary.fixed_cost,
          "brief_report", summary.BriefReport().c_str(),
          "full_report", summary.FullReport().c_str(),
diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index d061e52..f9910d5 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -142,7 +142,8 @@ class CeresOptimizer(Optimizer):
 
         if scaled:
             #print('Opt. in scaled space:', params)
-            tractor.setParams(p0 + params * scales)
+            # (parameters that were not changed keep their exact values)
+            tractor.setParams(np.where(params == 1., pp, p0 + params * scales))
             if variance:
                 variance_out *= scales**2
             R['params0'] = p0
-- 
2.43.0


From 6824572693b92c007b4b5b4d01e5d7420558c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:29 +0000
Subject: [PATCH 24/34] fix: bounded Ceres fits stay within their bounds with
 negative or very large parameter scales

---
 tractor/ceres_optimizer.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index f9910d5..c3a42b8 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -33,7 +33,7 @@ class CeresOptimizer(Optimizer):
             scales[I] = 1. / scales[I]
         I = (scales == 0)
         if any(I):
-            scales[I] = np.array(tractor.getStepSizes())[I]
+            scales[I] = np.abs(tractor.getStepSizes())[I]
         return scales
 
     def _optimize_forcedphot_core(self, tractor, result, *args, **kwargs):
@@ -77,7 +77,8 @@ class CeresOptimizer(Optimizer):
             if dynamic_scale:
                 scales = self.getDynamicScales(tractor)
             else:
-                scales = np.array(tractor.getStepSizes())
+                # (some step sizes are negative; the bounds below assume scales > 0)
+                scales = np.abs(tractor.getStepSizes())
             # print('parameter scales:', scales)
 
             # Offset all the parameters so that Ceres sees them all
@@ -117,6 +118,9 @@ class CeresOptimizer(Optimizer):
             # print('Upper bounds:', uppers)
             assert(len(lowers) == len(pp))
             assert(len(uppers) == len(pp))
+            trwrapper.bounds = (
+                [-np.inf if b is None else b for b in lowers],
+                [+np.inf if b is None else b for b in uppers])
 
             if scaled:
                 lowers = [(b - p0[i]) / scales[i] if b is not None else None
@@ -142,8 +146,9 @@ class CeresOptimizer(Optimizer):
 
         if scaled:
             #print('Opt. in scaled space:', params)
+            trwrapper.setParams(params)
             # (parameters that were not changed keep their exact values)
-            tractor.setParams(np.where(params == 1., pp, p0 + params * scales))
+            tractor.setParams(np.where(params == 1., pp, tractor.getParams()))
             if variance:
                 variance_out *= scales**2
             R['params0'] = p0
@@ -397,6 +402,7 @@ class CeresOptimizer(Optimizer):
 
 class CeresTractorAdapter(object):
     def __init__(self, tractor, ceresopt, p0, scales):
+        self.bounds = None
         self.tractor = tractor
         self.ceresopt = ceresopt
         self.offset = p0
@@ -418,4 +424,8 @@ class CeresTractorAdapter(object):
 
     def setParams(self, p):
         #print('CeresTractorAdapter: setParams:', self.offset + self.scale * p)
-        return self.tractor.setParams(self.offset + self.scale * p)
+        p = self.offset + self.scale * p
+        if self.bounds is not None:
+            # (the scaling must not round us to beyond the bounds)
+            p = np.clip(p, *self.bounds)
+        return self.tractor.setParams(p)
-- 
2.43.0


From 786b9d3756a11f98a6a673d973ed43712ace7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:36 +0000
Subject: [PATCH 25/34] fix: forced photometry: statistics of models starting
 off the image, sky with regions of interest, starting fluxes below minFlux

---
 tractor/lsqr_optimizer.py | 16 ++++++++++++++--
 tractor/optimize.py       |  4 +++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index b828392..4791d87 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -1,7 +1,7 @@
 from __future__ import print_function
 import numpy as np
 from astrometry.util.ttime import Time
-from tractor.engine import logverb, isverbose, logmsg
+from tractor.engine import Images, logverb, isverbose, logmsg
 from tractor.optimize import Optimizer
 from tractor.utils import listmax, unchanged_on_error
 
@@ -53,6 +53,13 @@ class LsqrOptimizer(Optimizer):
         # We shift the unit-flux models (above, um.x0 -= x0) to be
         # relative to the ROI.
 
+        if rois is not None:
+            # The sub-images, with the same thawed parameters
+            subims = Images(*subimgs)
+            subims.liquid = list(imgs.liquid)
+            for sub, img in zip(subimgs, imgs):
+                sub.liquid = list(img.liquid)
+
         # debugging images
         ims0 = None
         imsBest = None
@@ -73,6 +80,9 @@ class LsqrOptimizer(Optimizer):
             if sky:
                 p0sky = p0[:Nsky]
                 p0 = p0[Nsky:]
+            if minFlux is not None:
+                # start from the fluxes that the models are rendered with
+                p0 = [max(minFlux, p) for p in p0]
 
             if lnp0 is None:
                 #t0 = Time()
@@ -102,7 +112,7 @@ class LsqrOptimizer(Optimizer):
             # which image.  Temporarily set images = subimages
             if rois is not None:
                 realims = tractor.images
-                tractor.images = subimgs
+                tractor.images = subims
 
             #logverb('forced phot: getting update with damp=', damping)
             #t0 = Time()
@@ -217,6 +227,8 @@ class LsqrOptimizer(Optimizer):
 
             if quitNow:
                 break
+        if rois is not None and sky:
+            subims.setParams(imgs.getParams())
         result.ims0 = ims0
         result.ims1 = imsBest
 
diff --git a/tractor/optimize.py b/tractor/optimize.py
index f678763..ca2a3fa 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -335,7 +335,9 @@ class Optimizer(object):
                 # Divide by total flux, not flux within this image; sum <= 1.
                 if xlo is None or xhi is None or ylo is None or yhi is None:
                     continue
-                slc = slice(ylo, yhi), slice(xlo, xhi)
+                # (the model may start off this image)
+                slc = (slice(max(0, ylo), max(0, yhi)),
+                       slice(max(0, xlo), max(0, xhi)))
 
                 srcmod[slc] /= sourcecounts
 
-- 
2.43.0


From 62b0d64533e9318990f3648d66c172a9f27227e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:36 +0000
Subject: [PATCH 26/34] fix: NullWCS.shifted shifts

---
 tractor/wcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 5044daf..63a1d58 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -46,7 +46,7 @@ class NullWCS(BaseParams, ducks.WCS):
         return self.pixscale
 
     def shifted(self, x, y):
-        return self.copy()
+        return NullWCS(pixscale=self.pixscale, dx=self.dx - x, dy=self.dy - y)
 
 
 class WcslibWcs(BaseParams, ducks.ImageCalibration):
-- 
2.43.0


From b156f4470768712e475688e9124ca81640921e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:51 +0000
Subject: [PATCH 27/34] fix: Ceres optimizer: an error in a callback while
 computing variances does not abort the process

---
 tractor/ceres-tractor.cc | 9 +++++++++
 tractor/ceres-tractor.h  | 5 +++++
 tractor/ceres.i          | 9 ++++++++-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/tractor/ceres-tractor.cc b/tractor/ceres-tractor.cc
index f7ee9cb..c3e0cf0 100644
--- a/tractor/ceres-tractor.cc
+++ b/tractor/ceres-tractor.cc
@@ -214,10 +214,19 @@ ImageCostFunction::~ImageCostFunction() {
     Py_XDECREF(_image);
 }
 
+bool ImageCostFunction::zero_on_error = false;
+
 bool ImageCostFunction::Evaluate(double const* const* parameters,
                                  double* residuals,
                                  double** jacobians) const {
     bool result = _Evaluate(parameters, residuals, jacobians);
+    if (!result && zero_on_error && PyErr_Occurred()) {
+        memset(residuals, 0, _npix * sizeof(double));
+        for (int i=0; jacobians && i<_nparams; i++)
+            if (jacobians[i])
+                memset(jacobians[i], 0, _npix * sizeof(double));
+        return true;
+    }
     //printf("ImageCostFunction::Evaluate: returning %i\n", (int)result);
     return result;
 }
diff --git a/tractor/ceres-tractor.h b/tractor/ceres-tractor.h
index 813bf80..be65fbc 100644
--- a/tractor/ceres-tractor.h
+++ b/tractor/ceres-tractor.h
@@ -67,6 +67,11 @@ class ImageCostFunction : public CostFunction {
 
     int nPix() const { return _npix; }
 
+    // Ceres aborts if an evaluation fails while it computes covariances;
+    // with this set, a failed callback yields zeros (and the python error
+    // stays set).
+    static bool zero_on_error;
+
  protected:
 
     bool _Evaluate(double const* const* parameters,
diff --git a/tractor/ceres.i b/tractor/ceres.i
index e69a480..0134402 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -632,7 +632,14 @@ static PyObject* ceres_opt(PyObject* tractor,
         std::vector<std::pair<const double*, const double*> > covar_blocks;
         for (i=0; i<nparams; i++)
             covar_blocks.push_back(std::make_pair(params+i, params+i));
-        if (!covariance.Compute(covar_blocks, &problem)) {
+        ImageCostFunction::zero_on_error = true;
+        bool covariance_ok = covariance.Compute(covar_blocks, &problem);
+        ImageCostFunction::zero_on_error = false;
+        if (PyErr_Occurred()) {
+            Py_DECREF(np_trial);
+            return NULL;
+        }
+        if (!covariance_ok) {
             printf("ceres_opt: failed to compute variance\n");
             // ?
             return NULL;
-- 
2.43.0


From dcba6f04aedf06816f6fbf5ac8426659794ebcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:11 +0000
Subject: [PATCH 28/34] fix: FixedCompositeGalaxy derivatives with frozen
 brightness

---
 tractor/galaxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 757aeee..4dfb6ce 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -950,6 +950,9 @@ class FixedCompositeGalaxy(MultiParams, ProfileGalaxy, SingleProfileSource):
         if self.isParamFrozen('pos'):
             e.freezeParam('pos')
             d.freezeParam('pos')
+        if self.isParamFrozen('brightness'):
+            e.freezeParam('brightness')
+            d.freezeParam('brightness')
         if self.isParamFrozen('shapeExp'):
             e.freezeParam('shape')
         if self.isParamFrozen('shapeDev'):
-- 
2.43.0


From dc192ba73dc9a48b197e7b708e63a33debd9990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:11 +0000
Subject: [PATCH 29/34] fix: MovingPointSource derivatives off the image

---
 tractor/motion.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tractor/motion.py b/tractor/motion.py
index 7250fc6..5ccf716 100644
--- a/tractor/motion.py
+++ b/tractor/motion.py
@@ -177,6 +177,10 @@ class MovingPointSource(PointSource):
                 # print 'stepping param', name, i, '-->', p, '--> pos', tpos, 'pix pos', px,py
                 patchx = img.getPsf().getPointSourcePatch(px, py, modelMask=modelMask)
                 p.setParam(i, oldval)
+                if patch0 is None or patchx is None:
+                    # off the image
+                    derivs.append(None)
+                    continue
                 dx = (patchx - patch0) * (counts0 / pstep)
                 dx.setName('d(ptsrc)/d(%s%i)' % (name, i))
                 # print 'deriv', dx.patch.min(), dx.patch.max()
@@ -195,6 +199,9 @@ class MovingPointSource(PointSource):
                 oldval = self.brightness.setParam(i, bvals[i] + bstep)
                 countsi = img.getPhotoCal().brightnessToCounts(self.brightness)
                 self.brightness.setParam(i, oldval)
+                if patch0 is None:
+                    derivs.append(None)
+                    continue
                 df = patch0 * ((countsi - counts0) / bstep)
                 df.setName('d(ptsrc)/d(bright%i)' % i)
                 derivs.append(df)
-- 
2.43.0


From 710c476540920c03999e66929dfab433cdf325c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:20 +0000
Subject: [PATCH 30/34] fix: a saved image reads back with its frozen PSF
 parameters, calibration and pixel offset

---
 tractor/brightness.py | 11 +++++++++++
 tractor/ducks.py      | 12 ++++++++++++
 tractor/psf.py        |  5 +----
 tractor/wcs.py        |  3 +++
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 46c5a0b..28f2dab 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -256,6 +256,9 @@ class FluxesPhotoCal(BaseParams, ducks.ImageCalibration):
     def copy(self):
         return FluxesPhotoCal(self.band)
 
+    def getFitsArgs(self):
+        return [self.band]
+
     def hashkey(self):
         return super(FluxesPhotoCal, self).hashkey() + (self.band,)
 
@@ -289,6 +292,9 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
     def copy(self):
         return MagsPhotoCal(self.band, self.zp)
 
+    def getFitsArgs(self):
+        return [self.band, self.zp]
+
     def hashkey(self):
         return super(MagsPhotoCal, self).hashkey() + (self.band,)
 
@@ -344,6 +350,11 @@ class LinearPhotoCal(ScalarParam, ducks.ImageCalibration):
     def copy(self):
         return self.__class__(self.getValue(), band=self.band)
 
+    def getFitsArgs(self):
+        if self.band is None:
+            return [self.val]
+        return [self.val, self.band]
+
     def hashkey(self):
         return super(LinearPhotoCal, self).hashkey() + (self.band,)
 
diff --git a/tractor/ducks.py b/tractor/ducks.py
index 25f7b4e..2ce19fe 100644
--- a/tractor/ducks.py
+++ b/tractor/ducks.py
@@ -161,12 +161,24 @@ class Params(object):
 
 class ImageCalibration(object):
     def toFitsHeader(self, hdr, prefix=''):
+        for i,val in enumerate(self.getFitsArgs()):
+            k = prefix + 'A%i' % i
+            hdr.add_record(dict(name=k, value=val, comment='argument'))
         params = self.getAllParams()
         names = self.getParamNames()
+        if len(names) != len(params):
+            # some parameters are frozen
+            names = ['param%i' % i for i in range(len(params))]
         for i,(name,val) in enumerate(zip(names, params)):
             k = prefix + 'P%i' % i
             hdr.add_record(dict(name=k, value=val, comment=name))
 
+    def getFitsArgs(self):
+        '''
+        Returns the constructor arguments that fromFitsHeader() needs.
+        '''
+        return []
+
     def toStandardFitsHeader(self, hdr):
         pass
 
diff --git a/tractor/psf.py b/tractor/psf.py
index 8a32eeb..087af31 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -420,10 +420,7 @@ class GaussianMixturePSF(MogParams, ducks.ImageCalibration):
             raise RuntimeError('Failed to create %s from FITS header: expected '
                                'factor of 6 parameters, got %i' %
                                (str(clazz), len(params)))
-        K = len(params) // 6
-        psf = clazz(np.zeros(K), np.zeros((K, 2)), np.zeros((K, 2, 2)))
-        psf.setParams(params)
-        return psf
+        return clazz(*params)
 
     def getMixtureOfGaussians(self, px=None, py=None):
         return self.mog
diff --git a/tractor/wcs.py b/tractor/wcs.py
index 63a1d58..5b3d7ac 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -19,6 +19,9 @@ class NullWCS(BaseParams, ducks.WCS):
         self.dy = dy
         self.setPixscale(pixscale)
 
+    def getFitsArgs(self):
+        return [self.pixscale, self.dx, self.dy]
+
     def hashkey(self):
         return ('NullWCS', self.dx, self.dy, self.pixscale)
 
-- 
2.43.0


From 8d52c3e91807064e8066198ef04e893a4d8363af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:20 +0000
Subject: [PATCH 31/34] fix: a saved VaryingGaussianPsfEx can be read back

---
 tractor/psfex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index e6e12a5..7de1164 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from tractor.utils import MultiParams, getClassName
-from tractor.psf import GaussianMixturePSF, PixelizedPSF, NormalizedPsf, NormalizedPixelizedPsf
+from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF, PixelizedPSF, NormalizedPsf, NormalizedPixelizedPsf
 from tractor import mixture_profiles as mp
 from tractor import ducks
 
@@ -573,7 +573,8 @@ class VaryingGaussianPsfEx(VaryingGaussianPSF):
         T = T[0]
         t = hdr['PSFEX_T'].strip()
         # print 'Type:', t
-        assert(t == 'tractor.psfex.PsfEx')
+        # ("PsfEx" was this class's name)
+        assert(t in ['tractor.psfex.PsfEx', typestring(PsfEx)])
         psft = hdr['PSF_TYPE']
         knowntypes = dict([(typestring(x), x)
                            for x in [GaussianMixturePSF,
@@ -611,6 +612,7 @@ class VaryingGaussianPsfEx(VaryingGaussianPSF):
                 pp[:, :, i] = pi
 
         psfex.splinedata = (pp, T.xx, T.yy)
+        psfex.ensureSplines()
         return psfex
 
     def toFits(self, fn, data=None, hdr=None,
-- 
2.43.0


From 2171cdbbb0589742cb003befb951916ba4d28d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:23 +0000
Subject: [PATCH 32/34] fix: a position the WCS cannot convert is off the
 image, not at a random pixel

---
 tractor/wcs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 5b3d7ac..8f6e09c 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -213,6 +213,10 @@ class ConstantFitsWcs(ParamList, ducks.WCS):
         # handle X = (ok,x,y) and X = (x,y) return values
         if len(X) == 3:
             ok, x, y = X
+            if ok is False:
+                # eg, on the opposite side of the sky: x,y are not set.
+                # Return a position far off the image.
+                return -1e9, -1e9
         else:
             assert(len(X) == 2)
             x, y = X
-- 
2.43.0


From 1b0f89d91fb1f705999220feec4f26bc078c4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:23 +0000
Subject: [PATCH 33/34] fix: SDSS image loading: retry also with named
 arguments, do not swallow interrupts

---
 tractor/sdss.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index 8adfc80..bce4a01 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -684,18 +684,22 @@ def get_tractor_image_dr8(*args, **kwargs):
     if retry:
         try:
             return _get_tractor_image_dr8(*args, **kwargs)
-        except:
+        except Exception:
             import traceback
             print('First get_tractor_image_dr8() failed -- trying to re-retrieve data')
             print(traceback.print_exc())
 
             # Re-retrieve the data
-            sdss = kwargs.get('sdss', None)
+            # (the arguments may be given by position or by name)
+            names = ['run', 'camcol', 'field', 'bandname', 'sdss']
+            a = dict(zip(names, args))
+            a.update([(k, kwargs[k]) for k in names if k in kwargs])
+            (run, camcol, field, bandname) = [a[k] for k in names[:4]]
+            sdss = a.get('sdss', None)
             if sdss is None:
                 from astrometry.sdss import DR8
                 curl = kwargs.get('curl', False)
                 sdss = DR8(curl=curl)
-            (run, camcol, field, bandname) = args
             for ft in ['psField', 'fpM', 'frame']:
                 fn = sdss.retrieve(ft, run, camcol, field, bandname,
                                    skipExisting=False)
-- 
2.43.0


From 9d0536a35dfaa7decaaea45199da3ab9137f0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:24 +0000
Subject: [PATCH 34/34] fix: forced photometry with priors evaluates the priors
 at the trial fluxes

---
 tractor/engine.py         | 4 ++--
 tractor/lsqr_optimizer.py | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/tractor/engine.py b/tractor/engine.py
index 87edec6..3e32e42 100644
--- a/tractor/engine.py
+++ b/tractor/engine.py
@@ -234,8 +234,8 @@ class Tractor(MultiParams):
 
         ASSUMES the PSF and Sky models are position-independent!!
 
-        PRIORS probably don't work because we don't setParams() when
-        evaluating likelihood or prior!
+        With priors=True (LSQR optimizer only), priors on the
+        brightnesses are included.
         '''
         kw = self.model_kwargs.copy()
         kw.update(kwargs)
diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 4791d87..96cd093 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -116,10 +116,14 @@ class LsqrOptimizer(Optimizer):
 
             #logverb('forced phot: getting update with damp=', damping)
             #t0 = Time()
+            # (the priors' derivatives are also taken at p0)
+            pnow = tractor.catalog.getParams()
+            tractor.catalog.setParams(p0)
             X = self.getUpdateDirection(tractor, derivs, damp=damping,
                                         priors=priors,
                                         scale_columns=False, chiImages=chis0,
                                         shared_params=shared_params)
+            tractor.catalog.setParams(pnow)
             if rois is not None:
                 tractor.images = realims
             if X is None or len(X) == 0:
@@ -244,7 +248,12 @@ class LsqrOptimizer(Optimizer):
 
         lnp = 0.
         if priors:
+            # (the prior at these fluxes, as rendered below)
+            pnow = tractor.catalog.getParams()
+            tractor.catalog.setParams(
+                pa if minFlux is None else [max(p, minFlux) for p in pa])
             lnp += tractor.getLogPrior()
+            tractor.catalog.setParams(pnow)
             if not np.isfinite(lnp):
                 return lnp, None, None
 
-- 
2.43.0

