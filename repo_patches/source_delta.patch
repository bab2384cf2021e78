From 639474c1896390aeedeff5f7bc991a1beaa933eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 01/53] fix: phase several sources with resolution when a
 single channel is active

gen_phs multiplied (sources, 1) phases by the squeezed (sources,) array from
resolve_src and raised ValueError, so sim() failed for one active channel.
---
 aipy/phs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 5d72478..bcf2625 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -351,7 +351,9 @@ class AntennaArray(ArrayLocation):
             if srcshape is None:
                 try: srcshape = src.srcshape
                 except(AttributeError): pass
-            if not srcshape is None: phs *= self.resolve_src(u, v, srcshape=srcshape)
+            if not srcshape is None:
+                # resolve_src squeezes axes of length 1; restore them
+                phs *= np.reshape(self.resolve_src(u, v, srcshape=srcshape), phs.shape)
         return phs.squeeze()
     def resolve_src(self, u, v, srcshape=(0,0,0)):
         """Adjust amplitudes to reflect resolution effects for a uniform
-- 
2.43.0


From ee7b0c055a7144b2f33241cff70bd6b1daee147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 02/53] fix: number BeamAlm coefficients the same way in
 get_params as in set_params

get_params listed them in the opposite order, so setting back what was read
reversed the frequency polynomial of the beam.
---
 aipy/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index f06e8ca..85e0e51 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -270,7 +270,7 @@ class BeamAlm(amp.BeamAlm):
     def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {}
-        for i, a in enumerate(self.alm):
+        for i, a in enumerate(reversed(self.alm)): # as numbered by set_params
             k = 'alm%d' % i
             data = a.get_data()
             aprms[k] = np.array([data.real, data.imag]).transpose().flatten()
-- 
2.43.0


From 3d8c55ca2d59dbd30a66fd9533042123c25499d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 03/53] fix: accept any sequence as bm_poly and do not reshape
 or keep the caller's array

reconstruct_prms returns lists (and scalars for one element), which raised
AttributeError.
---
 aipy/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 85e0e51..a126632 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -255,7 +255,7 @@ class BeamPolynomial(amp.BeamPolynomial):
         """Set all parameters from a dictionary."""
         changed = False
         try:
-            poly_azfreq = prms['bm_poly']
+            poly_azfreq = np.array(prms['bm_poly'])
             poly_azfreq.shape = self.poly.shape
             self.poly = poly_azfreq
             changed = True
-- 
2.43.0


From ce3031f3fdd0ae54c0ccd5d73701d9f4571af571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 04/53] fix: pol.Antenna.set_params looks up bp_i_<pol>, the
 name get_params uses

---
 aipy/pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/pol.py b/aipy/pol.py
index 01d621a..b4cf22b 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -123,7 +123,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-            try: self.bp_i[p], changed = prms['bp_i'+p], True
+            try: self.bp_i[p], changed = prms['bp_i_'+p], True
             except(KeyError): pass
             try: self.amp[p], changed = prms['amp_'+p], True
             except(KeyError): pass
-- 
2.43.0


From dd051201dee8144cba92e6a810935ac2cd5f21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 05/53] fix: do not share one default phsoff list between
 antennas

set_params changes phsoff in place, so setting the delay of one antenna
changed every antenna built with the default.
---
 aipy/amp.py | 2 +-
 aipy/phs.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 9e19efc..434bdd2 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -222,7 +222,7 @@ class BeamAlm(phs.Beam):
 class Antenna(phs.Antenna):
     """Representation of physical location and beam pattern of individual
     antenna in array."""
-    def __init__(self, x, y, z, beam, phsoff=[0.,0.], bp_r=np.array([1]),
+    def __init__(self, x, y, z, beam, phsoff=None, bp_r=np.array([1]),
             bp_i=np.array([0]), amp=1, pointing=(0.,np.pi/2,0), **kwargs):
         """x,y z = antenna coordinates in equatorial (ns) coordinates
         beam = Beam object (implements response() function)
diff --git a/aipy/phs.py b/aipy/phs.py
index bcf2625..2456739 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -188,13 +188,14 @@ class Beam:
 
 class Antenna:
     """Representation of physical attributes of individual antenna."""
-    def __init__(self, x, y, z, beam, phsoff=[0.,0.], **kwargs):
+    def __init__(self, x, y, z, beam, phsoff=None, **kwargs):
         """x,y,z = antenna coordinates in equatorial (ns) coordinates
         beam = Beam object
         phsoff = polynomial phase vs. frequency.  Phs term that is linear
                  with freq is often called 'delay'."""
         self.pos = np.array((x,y,z), np.float64) # must be float64 for mir
         self.beam = beam
+        if phsoff is None: phsoff = [0.,0.]
         self._phsoff = phsoff
         self._update_phsoff()
     def select_chans(self, active_chans=None):
-- 
2.43.0


From 9b01dffda5f25ec2b9a5f931d2c7b1f04e1a2b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 06/53] fix: get_params and set_params copy phsoff instead of
 sharing it

A phsoff that had been read changed when dly or off was set afterwards, and
setting one antenna's phsoff on another tied the two together.
---
 aipy/fit.py | 4 ++--
 aipy/pol.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index a126632..dec6780 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -307,7 +307,7 @@ class Antenna(amp.Antenna):
         """Return all fitable parameters in a dictionary."""
         x,y,z = self.pos
         aprms = {'x':x, 'y':y, 'z':z, 'dly':self._phsoff[-2],
-            'off':self._phsoff[-1], 'phsoff':self._phsoff}
+            'off':self._phsoff[-1], 'phsoff':list(self._phsoff)}
         aprms['bp_r'] = list(self.bp_r)
         aprms['bp_i'] = list(self.bp_i)
         aprms['amp'] = self.amp
@@ -332,7 +332,7 @@ class Antenna(amp.Antenna):
         except(KeyError): pass
         try: self._phsoff[-1], changed = prms['off'], True
         except(KeyError): pass
-        try: self._phsoff, changed = prms['phsoff'], True
+        try: self._phsoff, changed = list(prms['phsoff']), True
         except(KeyError): pass
         try: self.bp_r, changed = prms['bp_r'], True
         except(KeyError): pass
diff --git a/aipy/pol.py b/aipy/pol.py
index b4cf22b..e7392db 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -93,7 +93,7 @@ class Antenna(fit.Antenna):
             aprms.update({
                 'dly_'+p:self._phsoff[p][-2],
                 'off_'+p:self._phsoff[p][-1],
-                'phsoff_'+p:self._phsoff[p]})
+                'phsoff_'+p:list(self._phsoff[p])})
             aprms['bp_r_'+p] = list(self.bp_r[p])
             aprms['bp_i_'+p] = list(self.bp_i[p])
             aprms['amp_'+p] = self.amp[p]
@@ -119,7 +119,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self._phsoff[p][-1], changed = prms['off_'+p], True
             except(KeyError): pass
-            try: self._phsoff[p], changed = prms['phsoff_'+p], True
+            try: self._phsoff[p], changed = list(prms['phsoff_'+p]), True
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 1df03f005a29a80a26f0992a7a3d5718ba4a3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 07/53] fix: renew eq2top_m and drop the simulation cache in
 set_ephemtime too

Only set_jultime did, so after set_ephemtime sim() used the old time.
---
 aipy/amp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 434bdd2..1794983 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -288,9 +288,10 @@ class AntennaArray(phs.AntennaArray):
     def get_active_pol(self):
         if self.active_pol is None: raise RuntimeError('No active polarization set (use AntennaArray.set_active_pol)')
         return self.active_pol
-    def set_jultime(self, t=None):
-        """Set current time as a Julian date."""
-        phs.AntennaArray.set_jultime(self, t=t)
+    def set_ephemtime(self, t=None):
+        """Set current time as derived from the ephem package (set_jultime
+        also ends up here)."""
+        phs.AntennaArray.set_ephemtime(self, t=t)
         self.eq2top_m = coord.eq2top_m(-self.sidereal_time(), self.lat)
         self._cache = None
     def passband(self, i, j):
-- 
2.43.0


From b2d553366dd1d4bad90e897e4c9f702802f95d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 08/53] fix: SrcCatalog.get_srcs() without names returns every
 source, not None

---
 aipy/phs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 2456739..39a9705 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -136,7 +136,7 @@ class SrcCatalog(dict):
         for s in srcs: self[s.src_name] = s
     def get_srcs(self, *srcs):
         """Return list of all src objects in catalog."""
-        if len(srcs) == 0: srcs = self.keys()
+        if len(srcs) == 0: return list(self.values())
         elif len(srcs) == 1 and type(srcs[0]) != str:
             return [self[s] for s in srcs[0]]
         else: return [self[s] for s in srcs]
-- 
2.43.0


From 3212852a170974d4c0f6175d97e0d03a275d5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 09/53] fix: HealpixMap.from_alm does not smooth by the pixel
 window

It passed the ordering scheme where to_map takes pixwin, so every map made
from Alm coefficients (and every BeamAlm response) was smoothed.
---
 aipy/healpix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 9bb8c50..f1f821b 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -281,7 +281,7 @@ class HealpixMap(HealpixBase):
     def from_alm(self, alm):
         """Set data to the map generated by the spherical harmonic
         coefficients contained in alm."""
-        self.set_map(alm.to_map(self.nside(), self.scheme()))
+        self.set_map(alm.to_map(self.nside()))
     def to_alm(self, lmax, mmax, iter=1):
         """Return an Alm object containing the spherical harmonic components
         of a map (in RING mode) up to the specified lmax,mmax.  Greater
-- 
2.43.0


From e67245e56901c5a824dbd2c221e9271848bf7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 10/53] fix: converting pixel numbers does not relabel the
 map's ordering scheme

nest_ring_conv changed the scheme of the object it was called on, so from_hpm
with a map of the other scheme left data in one order labelled as the other.
---
 aipy/healpix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index f1f821b..8e84e0f 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -40,7 +40,6 @@ class HealpixBase(object):
         """Translate an array of pixel numbers to index data in the scheme specified in 'scheme' ('NEST' or 'RING').  Returns px."""
         mode = {'RING':healpy.nest2ring, 'NEST':healpy.ring2nest}
         if scheme != self._scheme: px = mode[scheme](self._nside, px)
-        self._scheme = scheme
         return px
     def set_nside_scheme(self, nside=None, scheme=None):
         """Adjust Nside and Scheme ('RING' or 'NEST')."""
-- 
2.43.0


From 088a39d554d6d5f86382e47836f00da7902fe1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 11/53] fix: coordinate conversions accept masked arrays
 without a mask under numpy 2

---
 aipy/coord.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/coord.py b/aipy/coord.py
index d3c3fda..5c3bf0c 100644
--- a/aipy/coord.py
+++ b/aipy/coord.py
@@ -66,7 +66,7 @@ def xyz2thphi(xyz):
         try:
             return np.ma.array([th.filled(0),phi.filled(0)],
                 mask=[x.mask,x.mask], dtype=np.double)
-        except(np.core.ma.MAError):
+        except(np.ma.MAError):
             return np.ma.array([th,phi], dtype=np.double)
     return np.array([th,phi], dtype=np.double)
 
@@ -81,7 +81,7 @@ def thphi2xyz(th_phi):
         try:
             return np.ma.array([x.filled(),y.filled(),z.filled()],
                 mask=[th.mask, th.mask, th.mask], dtype=np.double)
-        except(np.core.ma.MAError):
+        except(np.ma.MAError):
             return np.ma.array([x,y,z], dtype=np.double)
     return np.array([x,y,z], dtype=np.double)
 
-- 
2.43.0


From f27eef8cf0ea4b064c9c5280eb81996094ca008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 12/53] fix: the 'none' window has the requested length

---
 aipy/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/dsp.py b/aipy/dsp.py
index 2538600..97f283f 100644
--- a/aipy/dsp.py
+++ b/aipy/dsp.py
@@ -43,7 +43,7 @@ WINDOW_FUNC = {
     'hamming': lambda x,L: .54 - .46 * np.cos(2*np.pi*x/(L-1)),
     'hanning': lambda x,L: .5 - .5 * np.cos(2*np.pi*x/(L-1)),
     'parzen': lambda x,L: 1 - np.abs(L/2. - x) / (L/2.),
-    'none': lambda x,L: 1,
+    'none': lambda x,L: np.ones_like(x),
     'tukey': tukey,
     'barthann': barthann
     }
-- 
2.43.0


From c0fae00361fe5821c0eb413d9381a2b51f83f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 13/53] fix: interpolation filters have exactly
 2*order*factor+1 taps for every factor

---
 aipy/interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/interp.py b/aipy/interp.py
index 993474c..2dec9f6 100644
--- a/aipy/interp.py
+++ b/aipy/interp.py
@@ -47,10 +47,10 @@ def interpolate(ys, factor, filter=default_filter, order=4):
     Order should be even to make this an averaging filter.  Internally,
     ys is extended by 2nd degree polynomial in both directions to attempt
     a smooth boundary transition."""
-    step = 1./factor
     ys = polyextend(ys, order)
     ys_ss, wgts = subsample(ys, factor)
-    fir = filter(np.arange(-order,order+step,step))
+    # 2*order*factor+1 taps, counted exactly
+    fir = filter(np.arange(-order*factor,order*factor+1) / float(factor))
     ys_ss = np.convolve(ys_ss, fir, mode='valid')
     wgts = np.convolve(wgts, fir, mode='valid')
     return ys_ss / wgts
-- 
2.43.0


From ca4b852152d50ed8c532c902733e6446af776e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 14/53] fix: pack_sphere returns N points for every N

---
 aipy/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 7cd8cfb..36e69b6 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -21,10 +21,10 @@ def pack_sphere(N):
     """Clever formula for putting N points nearly equally spaced on
     the sphere.  Return xyz coordinates of each point in order from S to N."""
     dz = 2. / N
-    z = np.arange(-1+dz/2,1, dz)
+    z = np.arange(N) * dz - 1 + dz/2
     r = np.sqrt(1-z**2)
     dL = np.pi * (3 - np.sqrt(5))
-    long = np.arange(0, dL * N, dL)
+    long = np.arange(N) * dL
     return np.array([r*np.cos(long), r*np.sin(long), z])
 
 def _bit_reverse(N, nbits=None):
-- 
2.43.0


From a17fc681acdd4693f096f97ef5a6856dd2c6a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 15/53] fix: bit reversal stays in integers, so facet_centers
 works again

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 36e69b6..16049a6 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -34,7 +34,7 @@ def _bit_reverse(N, nbits=None):
     if nbits is None: nbits = int(np.floor(np.log2(N))) + 1
     ans = 0
     for bit in range(nbits):
-        ans += np.bitwise_and(N.astype('int64'), 2**bit) * 2**(nbits-2*bit-1)
+        ans += np.bitwise_and(N.astype('int64') >> bit, 1) * 2**(nbits-bit-1)
     return ans
 
 def _bit_reverse_order(N):
-- 
2.43.0


From f664ca3e12cb971d71c665544b35f000633803da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 16/53] fix: reset_wgt keeps the averages for weights other
 than 1

---
 aipy/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 16049a6..2e514af 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -108,8 +108,8 @@ class Map(object):
         for n,i in enumerate(inds): self.ind[n][crds] = i * wgts
     def reset_wgt(self, wgt=1):
         w = np.where(self.wgt.map > 0, self.wgt.map, 1)
-        self.map.map /= w
-        for i in self.ind: i.map /= w
+        self.map.map *= wgt / w
+        for i in self.ind: i.map *= wgt / w
         self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
     def from_map(self, map):
         """Initialize this Map with data from another."""
-- 
2.43.0


From d09f9ddcb330a113672faea6b58a7adfcd9e3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 17/53] fix: from_hpm leaves the interpolation setting of its
 source as it was

---
 aipy/healpix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 8e84e0f..5cf19fb 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -267,6 +267,7 @@ class HealpixMap(HealpixBase):
             px = np.arange(self.npix())
             th,phi = self.px2crd(px, ncrd=2)
             self[px] = hpm[th,phi].astype(self.get_dtype())
+            hpm.set_interpol(interpol)
         elif hpm.nside() > self.nside():
             px = np.arange(hpm.npix())
             th,phi = hpm.px2crd(px, ncrd=2)
-- 
2.43.0


From 1ed576c957ab47feeefca2c06996711eb981743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 18/53] fix: Map.reset_wgt keeps the weight map's data type (an
 integer map refused or truncated later weights)

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 2e514af..dbb0b0b 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -110,7 +110,7 @@ class Map(object):
         w = np.where(self.wgt.map > 0, self.wgt.map, 1)
         self.map.map *= wgt / w
         for i in self.ind: i.map *= wgt / w
-        self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
+        self.wgt.map = np.where(self.wgt.map > 0, wgt, 0).astype(self.wgt.map.dtype)
     def from_map(self, map):
         """Initialize this Map with data from another."""
         self.map.from_hpm(map.map)
-- 
2.43.0


From 46fa821eefdeb456e4a390065abb1a7f4053ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 19/53] fix: Img.get_uv names the coordinates at which put
 places data

---
 aipy/img.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 38f2ca0..a74d35b 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -111,10 +111,10 @@ class Img:
             return (-v / self.res).astype(np.float32), (u / self.res).astype(np.float32)
     def get_uv(self):
         """Return the u,v indices of the pixels in the uv matrix."""
-        u,v = np.indices(self.shape)
-        u = np.where(u < self.shape[0]//2, u, u - self.shape[0])
-        v = np.where(v < self.shape[1]//2, v, v - self.shape[1])
-        return u*self.res, v*self.res
+        v,u = np.indices(self.shape)
+        u = np.where(u < (self.shape[1]+1)//2, u, u - self.shape[1])
+        v = np.where(v < (self.shape[0]+1)//2, v, v - self.shape[0])
+        return u*self.res, -v*self.res
     def put(self, uvw, data, wgts=None, apply=True):
         """Grid uv data (w is ignored) onto a UV plane.  Data should already
         have the phase due to w removed.  Assumes the Hermitian conjugate
-- 
2.43.0


From d478557491b2d8c8a6b26eb981f34df686542a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 20/53] fix: Img.get reads the cells where put placed the data,
 not the transposed ones

---
 aipy/img.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index a74d35b..c36c14c 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -166,8 +166,7 @@ class Img:
             data = self.uv[inds[:,0],inds[:,1]] / self.bm[0][inds[:,0],inds[:,1]]
             data = data.squeeze()
         else:
-            u,v = self.get_indices(-u,v)
-            u,v = -v,u # XXX necessary, but probably because of axis ordering in FITS files...
+            u,v = self.get_indices(u,v)
             uvdat = np.zeros(u.shape, dtype=np.complex64)
             bmdat = np.zeros(u.shape, dtype=np.complex64)
             _dsp.degrid2D_c(uv, u, v, uvdat)
-- 
2.43.0


From 5b0ef92fb441adca2e2acf18cf7f560fd2449b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 21/53] fix: an array of one weight is taken as the weights of
 one datum, and append_hermitian leaves the caller's list alone

---
 aipy/img.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index c36c14c..9c43ba0 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -128,7 +128,7 @@ class Img:
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0): wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         if apply: uv,bm = self.uv,self.bm
         else:
@@ -183,9 +183,9 @@ class Img:
         w = np.concatenate([w, -w], axis=0)
         data = np.concatenate([data, np.conj(data)], axis=0)
         if wgts is None: return np.array((u,v,w)), data
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0): wgts = [wgts]
         assert(len(wgts) == len(self.bm))
-        for i,wgt in enumerate(wgts): wgts[i] = np.concatenate([wgt,wgt],axis=0)
+        wgts = [np.concatenate([wgt,wgt],axis=0) for wgt in wgts]
         return (u,v,w), data, wgts
     def _gen_img(self, data, center=(0,0)):
         """Return the inverse FFT of the provided data, with the 0,0 point
@@ -239,7 +239,7 @@ class ImgW(Img):
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0): wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         # Sort uvw in order of w
         order = np.argsort(w)
-- 
2.43.0


From 583534fb633ad0692856c47a145d1bcfeacb3e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 22/53] fix: maxent_findvar gives its least-squares estimate a
 whole number of iterations

---
 aipy/deconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index 76d6627..67963ee 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -208,7 +208,7 @@ def maxent_findvar(im, ker, var=None, f_var0=.6, mdl=None, gain=.1, tol=1e-3,
     if var is None:
         # Get a starting estimate of variance to use via residual of lsq
         junk, info = lsq(im, ker, mdl=mdl, gain=gain, tol=tol,
-            maxiter=maxiter/4, lower=lower, upper=upper, verbose=False)
+            maxiter=max(maxiter//4, 1), lower=lower, upper=upper, verbose=False)
         var = np.var(info['res'])
         if verbose: print('Using', f_var0, 'of LSQ estimate of var=', var)
         var *= f_var0
-- 
2.43.0


From 0396c8b81ac918c01a5f2b94ceabc205b7f0884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 23/53] fix: grid2D_c/degrid2D_c index rows of non-square
 buffers by the row length

---
 aipy/_dsp/grid/grid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 3ad8d1e..8633d85 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -59,8 +59,8 @@ int grid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             // XXX should really make sure wgts sum to 1
-            buf[2*(j1mod*buflen1+j2mod)]   += fwgt2 * fdatr;
-            buf[2*(j1mod*buflen1+j2mod)+1] += fwgt2 * fdati;
+            buf[2*(j1mod*buflen2+j2mod)]   += fwgt2 * fdatr;
+            buf[2*(j1mod*buflen2+j2mod)+1] += fwgt2 * fdati;
           }
         }
     }
@@ -87,8 +87,8 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             tot_wgt += fwgt2;
-            data[2*i] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)];
-            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)+1];
+            data[2*i] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)];
+            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)+1];
           }
         }
         data[2*i] /= tot_wgt;
-- 
2.43.0


From 7ce6db7b40622d89d06bbbcb655c0ec1e73d85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 24/53] fix: degrid2D_c overwrites its output instead of adding
 to what was there

---
 aipy/_dsp/grid/grid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 8633d85..763c1cd 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -75,6 +75,8 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
         find1 = ind1[i];
         find2 = ind2[i];
         tot_wgt = 0;
+        data[2*i] = 0;
+        data[2*i+1] = 0;
         for (j1 = floorf(find1-footprint/2); j1 <= ceilf(find1+footprint/2); j1++) {
           j1mod = j1 % buflen1;
           j1mod = j1mod < 0 ? j1mod + buflen1 : j1mod;
-- 
2.43.0


From 05921d87bcc875084c74acc8c2d1c496553e9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 25/53] fix: parse the long footprint argument of the gridding
 functions as a long

---
 aipy/_dsp/dsp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/_dsp/dsp.c b/aipy/_dsp/dsp.c
index 2c7dd67..2ca5bd7 100644
--- a/aipy/_dsp/dsp.c
+++ b/aipy/_dsp/dsp.c
@@ -7,7 +7,7 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 1);
@@ -44,7 +44,7 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind1, &PyArray_Type, &ind2, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 2);
@@ -85,7 +85,7 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind1, &PyArray_Type, &ind2, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 2);
-- 
2.43.0


From 24b1a1705b8608cbbadeaeab8911a10556644e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 26/53] fix: gridding functions refuse arrays that are not
 contiguous, aligned and native instead of misreading memory

---
 aipy/_dsp/dsp.c | 11 +++++++++++
 aipy/_dsp/dsp.h |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/aipy/_dsp/dsp.c b/aipy/_dsp/dsp.c
index 2ca5bd7..0bb54f7 100644
--- a/aipy/_dsp/dsp.c
+++ b/aipy/_dsp/dsp.c
@@ -16,6 +16,9 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(buf, NPY_CFLOAT);
     CHK_ARRAY_TYPE(ind, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_CONTIG(buf);
+    CHK_ARRAY_CONTIG(ind);
+    CHK_ARRAY_CONTIG(dat);
     if (PyArray_DIM(ind,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
@@ -55,6 +58,10 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind1, NPY_FLOAT);
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_CONTIG(buf);
+    CHK_ARRAY_CONTIG(ind1);
+    CHK_ARRAY_CONTIG(ind2);
+    CHK_ARRAY_CONTIG(dat);
     if (PyArray_DIM(ind1,0) != PyArray_DIM(dat,0) || PyArray_DIM(ind2,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
@@ -96,6 +103,10 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind1, NPY_FLOAT);
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_CONTIG(buf);
+    CHK_ARRAY_CONTIG(ind1);
+    CHK_ARRAY_CONTIG(ind2);
+    CHK_ARRAY_CONTIG(dat);
     if (PyArray_DIM(ind1,0) != PyArray_DIM(dat,0) || PyArray_DIM(ind2,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
diff --git a/aipy/_dsp/dsp.h b/aipy/_dsp/dsp.h
index 7b3f673..6331462 100644
--- a/aipy/_dsp/dsp.h
+++ b/aipy/_dsp/dsp.h
@@ -22,5 +22,10 @@
         PyErr_Format(PyExc_ValueError, "rank(%s) != %s", \
         QUOTE(a), QUOTE(r)); \
         return NULL; }
+#define CHK_ARRAY_CONTIG(a) \
+    if (!PyArray_ISCARRAY_RO(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s must be C-contiguous, aligned and of native byte order", \
+        QUOTE(a)); \
+        return NULL; }
 
 #endif
-- 
2.43.0


From 80f81e42306d8d381b1698e5b622e86d60722bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 27/53] fix: add2array does not truncate 64-bit indices before
 checking their range

---
 aipy/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index f2efa77..eca0815 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -56,7 +56,7 @@ template<typename T> struct AddStuff {
     static int addloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        long v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
@@ -73,7 +73,7 @@ template<typename T> struct AddStuff {
     static int caddloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        long v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
-- 
2.43.0


From 3be8ae5fbc949f4353201bd2f283438c52d2dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 28/53] fix: add2array refuses arguments that are not arrays

---
 aipy/utils/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index eca0815..1d68ad3 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -93,7 +93,8 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     PyArrayObject *a, *ind, *data;
     int rv;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "OOO", &a, &ind, &data)) return NULL;
+    if (!PyArg_ParseTuple(args, "O!O!O!", &PyArray_Type, &a,
+            &PyArray_Type, &ind, &PyArray_Type, &data)) return NULL;
     CHK_ARRAY_RANK(ind, 2);
     CHK_ARRAY_RANK(data, 1);
     CHK_ARRAY_DIM(ind, 0, DIM(data,0));
-- 
2.43.0


From 8f543fce6ec6a73374058547f61035e4050bbe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 29/53] fix: add2array releases its arguments when it refuses
 their type

---
 aipy/utils/utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index 1d68ad3..84fef6d 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -145,6 +145,9 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     } else if (TYPE(a) == NPY_CLONGDOUBLE) {
         rv = AddStuff<long double>::caddloop(a,ind,data);
     } else {
+        Py_DECREF(a);
+        Py_DECREF(ind);
+        Py_DECREF(data);
         PyErr_Format(PyExc_ValueError, "Unsupported data type.");
         return NULL;
     }
-- 
2.43.0


From 77656ca03ed53c5cf9b57b63bfedb480fef6df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 30/53] fix: clean: take no step when no pixel of the residual
 qualifies

With an empty search area, or no positive residual under pos_def, the
previous maximum was used again at the previous (or first) pixel.
---
 aipy/_deconv/deconv.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index eb5be9f..02c8f32 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -82,6 +82,7 @@ template<typename T> struct Clean {
             nscore = 0;
             mmax = -1;
             step = (T) gain * max * q;
+            max = 0;  // No step if no pixel qualifies
             IND2(mdl,argmax1,argmax2,T) += step;
             // Take next step and compute score
             for (int n1=0; n1 < dim1; n1++) {
@@ -187,6 +188,7 @@ template<typename T> struct Clean {
             nscore = 0;
             mmax = -1;
             step = (T) gain * max * q;
+            max = 0;  // No step if no pixel qualifies
             IND1(mdl,argmax,T) += step;
             // Take next step and compute score
             for (int n=0; n < dim; n++) {
@@ -287,6 +289,7 @@ template<typename T> struct Clean {
             mmax = -1;
             stepr = (T) gain * (maxr * qr - maxi * qi);
             stepi = (T) gain * (maxr * qi + maxi * qr);
+            maxr = 0; maxi = 0;  // No step if no pixel qualifies
             CIND2R(mdl,argmax1,argmax2,T) += stepr;
             CIND2I(mdl,argmax1,argmax2,T) += stepi;
             // Take next step and compute score
@@ -408,6 +411,7 @@ template<typename T> struct Clean {
             mmax = -1;
             stepr = (T) gain * (maxr * qr - maxi * qi);
             stepi = (T) gain * (maxr * qi + maxi * qr);
+            maxr = 0; maxi = 0;  // No step if no pixel qualifies
             CIND1R(mdl,argmax,T) += stepr;
             CIND1I(mdl,argmax,T) += stepi;
             // Take next step and compute score
-- 
2.43.0


From bb5848f47a9f168abc2c06fa8cc8043ae244c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 31/53] fix: clean: the kernel peak does not depend on the
 search area

The area selects pixels of the residual; with the kernel peak outside it
the gain was 1/0 or that of a sidelobe.
---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 02c8f32..8d6a062 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -70,7 +70,7 @@ template<typename T> struct Clean {
             for (int n2=0; n2 < dim2; n2++) {
                 val = IND2(ker,n1,n2,T);
                 mval = val * val;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq) {
                     mq = mval;
                     q = val;
                 }
@@ -177,7 +177,7 @@ template<typename T> struct Clean {
         for (int n=0; n < dim; n++) {
             val = IND1(ker,n,T);
             mval = val * val;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq) {
                 mq = mval;
                 q = val;
             }
@@ -275,7 +275,7 @@ template<typename T> struct Clean {
                 valr = CIND2R(ker,n1,n2,T);
                 vali = CIND2I(ker,n1,n2,T);
                 mval = valr * valr + vali * vali;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq) {
                     mq = mval;
                     qr = valr; qi = vali;
                 }
@@ -397,7 +397,7 @@ template<typename T> struct Clean {
             valr = CIND1R(ker,n,T);
             vali = CIND1I(ker,n,T);
             mval = valr * valr + vali * vali;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq) {
                 mq = mval;
                 qr = valr;
                 qi = vali;
-- 
2.43.0


From 56607b183ceebd819252e8cec21a9f7220849f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 32/53] fix: clean: read the search area with the type it has
 (long)

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 8d6a062..c639044 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -93,7 +93,7 @@ template<typename T> struct Clean {
                     val = IND2(res,wrap_n1,wrap_n2,T);
                     mval = val * val;
                     nscore += mval;
-                    if (mval > mmax && (pos_def == 0 || val > 0) && IND2(area,wrap_n1,wrap_n2,int)) {
+                    if (mval > mmax && (pos_def == 0 || val > 0) && IND2(area,wrap_n1,wrap_n2,long)) {
                         nargmax1 = wrap_n1; nargmax2 = wrap_n2;
                         max = val;
                         mmax = mval;
@@ -197,7 +197,7 @@ template<typename T> struct Clean {
                 val = IND1(res,wrap_n,T);
                 mval = val * val;
                 nscore += mval;
-                if (mval > mmax && (pos_def == 0 || val > 0) && IND1(area,wrap_n,int)) {
+                if (mval > mmax && (pos_def == 0 || val > 0) && IND1(area,wrap_n,long)) {
                     nargmax = wrap_n;
                     max = val;
                     mmax = mval;
@@ -305,7 +305,7 @@ template<typename T> struct Clean {
                     vali = CIND2I(res,wrap_n1,wrap_n2,T);
                     mval = valr * valr + vali * vali;
                     nscore += mval;
-                    if (mval > mmax && IND2(area,wrap_n1,wrap_n2,int)) {
+                    if (mval > mmax && IND2(area,wrap_n1,wrap_n2,long)) {
                         nargmax1 = wrap_n1; nargmax2 = wrap_n2;
                         maxr = valr; maxi = vali;
                         mmax = mval;
@@ -425,7 +425,7 @@ template<typename T> struct Clean {
                 vali = CIND1I(res,wrap_n,T);
                 mval = valr * valr + vali * vali;
                 nscore += mval;
-                if (mval > mmax && IND1(area,wrap_n,int)) {
+                if (mval > mmax && IND1(area,wrap_n,long)) {
                     nargmax = wrap_n;
                     maxr = valr;
                     maxi = vali;
-- 
2.43.0


From e9e72d480290199b4ef0bf905721962cadae064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 33/53] fix: clean: refuse arrays of rank other than 1 or 2 and
 empty arrays

---
 aipy/_deconv/deconv.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index c639044..b1ffbaf 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -517,6 +517,13 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
         dim1 = DIM(res,0); dim2 = DIM(res,1);
         CHK_ARRAY_DIM(ker, 0, dim1); CHK_ARRAY_DIM(mdl, 0, dim1); CHK_ARRAY_DIM(area, 0, dim1);
         CHK_ARRAY_DIM(ker, 1, dim2); CHK_ARRAY_DIM(mdl, 1, dim2); CHK_ARRAY_DIM(area, 1, dim2);
+    } else {
+        PyErr_Format(PyExc_ValueError, "rank(res) must be 1 or 2");
+        return NULL;
+    }
+    if (dim1 == 0 || (rank == 2 && dim2 == 0)) {
+        PyErr_Format(PyExc_ValueError, "cannot clean an empty array");
+        return NULL;
     }
     if (TYPE(res) != TYPE(ker) || TYPE(res) != TYPE(mdl)) {
         PyErr_Format(PyExc_ValueError, "array types must match");
-- 
2.43.0


From 4fc851db0dcd913d1366442617af459873218b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 34/53] fix: clean: release the arrays when their type is
 refused

---
 aipy/_deconv/deconv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index b1ffbaf..89da76b 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -572,6 +572,7 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
             rv = Clean<long double>::clean_2d_c(res,ker,mdl,area,gain,maxiter,tol,stop_if_div,verb,pos_def);
         }
     } else {
+        Py_DECREF(res); Py_DECREF(ker); Py_DECREF(mdl);
         PyErr_Format(PyExc_ValueError, "Unsupported data type.");
         return NULL;
     }
-- 
2.43.0


From aa3c5e610b11bcc14f62a11025247ea13311af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 35/53] fix: miriad: store integer array variables as the ints
 Miriad holds in memory

Arrays had to be NPY_LONG but were handed over as if they were 32-bit, so
every second element came back as zero; 16-bit variables were read as shorts
from a buffer of ints; and strided arrays were stored as if contiguous.
---
 aipy/_miriad/miriad_wrap.cpp | 39 ++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index c7c5e38..a79b17b 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -242,7 +242,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         elem_size = 1;
         break;
     case 'j':
-        elem_size = 2;
+        elem_size = 4; // held as an int in memory
         break;
     case 'i':
         elem_size = 4;
@@ -274,14 +274,8 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
                 uvgetvr_c(self->tno,H_BYTE,name,value,length+1);
                 return PyString_FromStringAndSize(value, length);
             case 'j':
-                uvgetvr_c(self->tno,H_INT2,name,value,length);
-                if (length == 1)
-                    return PyInt_FromLong((long) ((short *)value)[0]);
-                rv = (PyArrayObject *) PyArray_SimpleNew(1, dims, NPY_INT);
-                CHK_NULL(rv);
-                for (int i=0; i < length; i++)
-                    IND1(rv,i,int) = ((short *)value)[i];
-                return PyArray_Return(rv);
+                // MIRIAD holds 16-bit variables as (32-bit) ints in memory
+                RET_IA(H_INT2,PyInt_FromLong,long,int,NPY_INT);
             case 'i':
                 RET_IA(H_INT,PyInt_FromLong,long,int,NPY_INT);
             case 'r':
@@ -307,10 +301,29 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     }
 }
 
+// Write an array to a variable, as contiguous elements of the type that MIRIAD
+// holds in memory. Returns -1 (with the python error set) on failure.
+static int put_array(int tno, int htype, char *name, PyArrayObject *arr, int npy_type) {
+    PyArrayObject *mem = (PyArrayObject *) PyArray_FROM_OTF((PyObject *) arr,
+        npy_type, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST);
+    if (mem == NULL) return -1;
+    try {
+        uvputvr_c(tno,htype,name,(char *) PyArray_DATA(mem),DIM(mem,0));
+    } catch (MiriadError &e) {
+        Py_DECREF(mem);
+        throw;
+    }
+    Py_DECREF(mem);
+    return 0;
+}
+
+#define IS_INT_ARRAY(a) (TYPE(a) == NPY_INT || TYPE(a) == NPY_LONG)
+
 #define STORE_IA(npy_type,htype,chk_type,type,pyconverter) \
     if (PyArray_Check(wr_val)) { \
-        CHK_ARRAY_TYPE(wr_arr,npy_type); \
-        uvputvr_c(self->tno,htype,name,(char *) PyArray_DATA(wr_arr),DIM(wr_arr,0)); \
+        if (!(npy_type == NPY_INT && IS_INT_ARRAY(wr_arr))) \
+            CHK_ARRAY_TYPE(wr_arr,npy_type); \
+        if (put_array(self->tno,htype,name,wr_arr,npy_type) < 0) return NULL; \
     } else { \
         chk_type(wr_val); \
         ((type *)value)[0] = (type) pyconverter(wr_val); \
@@ -336,10 +349,10 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
-                STORE_IA(NPY_LONG,H_INT2,CHK_INT,short,PyInt_AsLong);
+                STORE_IA(NPY_INT,H_INT2,CHK_INT,int,PyInt_AsLong);
                 break;
             case 'i':
-                STORE_IA(NPY_LONG,H_INT,CHK_INT,int,PyInt_AsLong);
+                STORE_IA(NPY_INT,H_INT,CHK_INT,int,PyInt_AsLong);
                 break;
             case 'r':
                 STORE_IA(NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble);
-- 
2.43.0


From e6592325119cdddae1b06912e8922c6cce33bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 36/53] fix: miriad: store complex variables as pairs of floats

rdvr and wrvr passed buffers of doubles where Miriad holds pairs of 32-bit
floats, so complex values came back as garbage.
---
 aipy/_miriad/miriad_wrap.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index a79b17b..98a08cc 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -285,12 +285,15 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
             case 'c':
                 if (length == 1) {
                     uvgetvr_c(self->tno,H_CMPLX,name,value,length);
-                    return PyComplex_FromDoubles(((double *)value)[0],
-                                                 ((double *)value)[1]);
+                    return PyComplex_FromDoubles(((float *)value)[0],
+                                                 ((float *)value)[1]);
                 }
+                // MIRIAD holds complex variables as pairs of floats in memory
+                uvgetvr_c(self->tno,H_CMPLX,name,value,length);
                 rv = (PyArrayObject *) PyArray_SimpleNew(1,dims,NPY_CDOUBLE);
                 CHK_NULL(rv);
-                uvgetvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(rv),length);
+                for (int i=0; i < 2*length; i++)
+                    ((double *)PyArray_DATA(rv))[i] = ((float *)value)[i];
                 return PyArray_Return(rv);
             default:
                 return NULL; /* can't happen with previous switch */
@@ -363,12 +366,11 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
             case 'c':
                 if (PyArray_Check(wr_val)) {
                     CHK_ARRAY_TYPE(wr_arr,NPY_CDOUBLE);
-                    uvputvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(wr_arr),
-                        DIM(wr_arr,0));
+                    if (put_array(self->tno,H_CMPLX,name,wr_arr,NPY_CFLOAT) < 0) return NULL;
                 } else {
                     CHK_COMPLEX(wr_val);
-                    ((double *)value)[0] = PyComplex_RealAsDouble(wr_val);
-                    ((double *)value)[1] = PyComplex_ImagAsDouble(wr_val);
+                    ((float *)value)[0] = (float) PyComplex_RealAsDouble(wr_val);
+                    ((float *)value)[1] = (float) PyComplex_ImagAsDouble(wr_val);
                     uvputvr_c(self->tno,H_CMPLX,name,value,1);
                 }
                 break;
-- 
2.43.0


From 45b1f926a04b1ddbbec80bf40306c2584940e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 37/53] fix: miriad: text keeps its exact value

A variable came back with its terminating NULL, lengths were counted in code
points rather than UTF-8 bytes, the encoded bytes were freed before use, and
items were decoded byte by byte, so that only ASCII could be read.
---
 aipy/_common/aipy_compat.h   | 21 +++++++++------------
 aipy/_miriad/miriad_wrap.cpp | 16 +++++++++-------
 aipy/miriad.py               |  7 +++----
 3 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/aipy/_common/aipy_compat.h b/aipy/_common/aipy_compat.h
index 20300da..601fe9f 100644
--- a/aipy/_common/aipy_compat.h
+++ b/aipy/_common/aipy_compat.h
@@ -10,24 +10,21 @@
 # define PyInt_Check PyLong_Check
 # define PyString_FromString PyUnicode_FromString
 # define PyString_Check PyUnicode_Check
-# define PyString_Size PyUnicode_GET_LENGTH
 # define PyString_FromStringAndSize PyUnicode_FromStringAndSize
 
+/* The UTF-8 encoding of a string (owned by the string) and its size in bytes;
+ * NULL and -1 (with the python error set) if it cannot be encoded. */
 static char *
 PyString_AsString(PyObject *ob)
 {
-    PyObject *enc;
-    char *cstr;
-
-    enc = PyUnicode_AsEncodedString(ob, "utf-8", "Error");
-    if (enc == NULL) {
-        PyErr_Format(PyExc_ValueError, "Cannot encode string");
-        return NULL;
-    }
+    return (char *) PyUnicode_AsUTF8(ob);
+}
 
-    cstr = PyBytes_AsString(enc);
-    Py_XDECREF(enc);
-    return cstr;
+static Py_ssize_t
+PyString_Size(PyObject *ob)
+{
+    Py_ssize_t size;
+    return PyUnicode_AsUTF8AndSize(ob, &size) == NULL ? -1 : size;
 }
 #endif
 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 98a08cc..9eb56fe 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -261,7 +261,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         return NULL;
     }
 
-    if (length * elem_size > MAXVAR) {
+    if (length * elem_size > MAXVAR - (type[0] == 'a')) {
         PyErr_Format(PyExc_ValueError, "UV variable \"%s\" too big for aipy's "
                      "internal buffers", name);
         return NULL;
@@ -272,6 +272,8 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         switch (type[0]) {
             case 'a':
                 uvgetvr_c(self->tno,H_BYTE,name,value,length+1);
+                // Drop the NULL that terminates text written by wrvr
+                if (length > 0 && value[length-1] == 0) length -= 1;
                 return PyString_FromStringAndSize(value, length);
             case 'j':
                 // MIRIAD holds 16-bit variables as (32-bit) ints in memory
@@ -349,6 +351,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(wr_val);
                 st = PyString_AsString(wr_val);
+                if (st == NULL) return NULL;
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
@@ -523,6 +526,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(val);
                 st = PyString_AsString(val);
+                if (st == NULL) return NULL;
                 in = PyString_Size(val); // # bytes to write
                 hwriteb_c(item_hdl, st, offset, in, &iostat);
                 CHK_IO(iostat);
@@ -588,7 +592,7 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val, *rv;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char st[2];
+    int in; short sh; long lg; float fl; double db; float cx[2]; char st[H_BYTE_SIZE];
     if (!PyArg_ParseTuple(args, "iis", &item_hdl, &offset, &type))
         return NULL;
     try {
@@ -596,11 +600,9 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
             case 'a':
                 hreadb_c(item_hdl, st, offset, H_BYTE_SIZE, &iostat);
                 CHK_IO(iostat);
-#if PY_MAJOR_VERSION >= 3
-                return Py_BuildValue("yi", st, H_BYTE_SIZE);
-#else
-                return Py_BuildValue("si", st, H_BYTE_SIZE);
-#endif
+                val = PyBytes_FromStringAndSize(st, H_BYTE_SIZE);
+                CHK_NULL(val);
+                return Py_BuildValue("Ni", val, H_BYTE_SIZE);
             case 'i':
                 hreadi_c(item_hdl, &in, offset, H_INT_SIZE, &iostat);
                 CHK_IO(iostat);
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 671f5fb..c59d9db 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -119,12 +119,11 @@ class UV(_miriad.UV):
             while True:
                 try: c, o = _miriad.hread(h, offset, itype)
                 except(IOError): break
-                if itype == 'a':
-                    try: c = str(c[:o], 'utf-8')
-                    except(TypeError): c = c[:o]
                 rv.append(c)
                 offset += o
-            if itype == 'a': rv = ''.join(rv)
+            if itype == 'a':
+                rv = b''.join(rv)
+                if not isinstance(rv, str): rv = str(rv, 'utf-8')
         else:
             t, offset = _miriad.hread_init(h); assert(t == 'b')
             for t in itype:
-- 
2.43.0


From 6c0d7f3cb219a6e2f74b26ef2c554544ffcf6693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 38/53] fix: uvwrite: always write a preamble that differs from
 the file's

The first record was compared with uninitialised memory (or, with w in the
preamble, with the wrong element + 1000), and later ones with a copy that did
not notice values written through uvputvr (as by uvcopyvr), so coordinates,
times or baselines of some records were never stored.
---
 aipy/_miriad/mir/uvio.c | 59 ++++++++---------------------------------
 1 file changed, 11 insertions(+), 48 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 0b18131..5fe954b 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1980,7 +1980,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
   UV *uv;
   int i,nchan,i1,i2,nuvw,itemp;
   float maxval,scale,*p,temp;
-  double *d,dtemp;
+  double dtemp;
   int *q;
   char *counter,*status;
   FLAGS *flags_info;
@@ -2019,33 +2019,9 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 
 /* Create the preamble variables, if needed. */
 
-    if( uv->coord == NULL ){
-      uv->coord = uv_mkvar(tno,"coord",H_DBLE);
-      uv->coord->flags |= UVF_NOCHECK;
-      if(uv->coord->buf == NULL){
-        uv->coord->buf = Malloc(3*sizeof(double));
-        d = (double *)(uv->coord->buf);
-        *d = *(preamble) + 1000;
-      }
-    }
-
-    if( uv->time == NULL ){
-      uv->time = uv_mkvar(tno,"time",H_DBLE);
-      uv->time->flags |= UVF_NOCHECK;
-      if(uv->time->buf == NULL){
-	uv->time->buf = Malloc(sizeof(double));
-	*(double *)(uv->time->buf) = *(preamble+2) + 1000;
-      }
-    }
-
-    if( uv->bl == NULL ){
-      uv->bl = uv_mkvar(tno,"baseline",H_REAL);
-      uv->bl->flags |= UVF_NOCHECK;
-      if(uv->bl->buf == NULL){
-	uv->bl->buf = Malloc(sizeof(float));
-	*(float *)(uv->bl->buf) = *(preamble + 3) + 1000;
-      }
-    }
+    if( uv->coord == NULL ) uv->coord = uv_mkvar(tno,"coord",H_DBLE);
+    if( uv->time == NULL ) uv->time = uv_mkvar(tno,"time",H_DBLE);
+    if( uv->bl == NULL ) uv->bl = uv_mkvar(tno,"baseline",H_REAL);
   }
 
 /* Get info on whether we are dealing with corr or wcorr data. */
@@ -2100,33 +2076,20 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
     uvputvrj_c(tno,v->name,(int *)v->buf,2*n);
   }
 
-/* Write out the preamble. */
+/* Write out the preamble (uvputvr omits what has not changed). */
 
-  d = (double *)(uv->coord->buf);
   nuvw = (uv->flags & UVF_DOW ? 3 : 2);
-  if( *d != *preamble || *(d+1) != *(preamble+1) || 
-      ( nuvw == 3 && *(d+2) != *(preamble+2) ) ){
-    uvputvrd_c(tno,"coord",preamble,nuvw);
-    *d = *preamble;
-    *(d+1) = *(preamble+1);
-    if(nuvw == 3) *(d+2) = *(preamble+2);
-  }
+  uvputvrd_c(tno,"coord",preamble,nuvw);
   preamble += nuvw;
 
   dtemp = *preamble++;
-  if( dtemp != *(double *)(uv->time->buf) ){
-    uvputvrd_c(tno,"time",&dtemp,1);
-    *(double *)(uv->time->buf) = dtemp;
-  }
+  uvputvrd_c(tno,"time",&dtemp,1);
 
   temp = *preamble++;
-  if( temp != *(float *)(uv->bl->buf) ){
-    itemp = temp;
-    uvbasant_c(itemp,&i1,&i2);
-    uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
-    uvputvrr_c(tno,"baseline",&temp,1);
-    *(float *)(uv->bl->buf) = temp;
-  }
+  itemp = temp;
+  uvbasant_c(itemp,&i1,&i2);
+  uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
+  uvputvrr_c(tno,"baseline",&temp,1);
 
 /* Write an end-of-record marker. */
 
-- 
2.43.0


From 7288b49763735940d21a1e340a03a14822b8372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 39/53] fix: bug: leave open data sets alone when the client
 recovers

A fatal MIRIAD error closed every open data set (and deleted new ones) before
the error was raised in Python, so unrelated data was lost and the next use or
deallocation of any UV object crashed the interpreter.
---
 aipy/_miriad/mir/bug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/bug.c b/aipy/_miriad/mir/bug.c
index 51d3fed..9a8f130 100644
--- a/aipy/_miriad/mir/bug.c
+++ b/aipy/_miriad/mir/bug.c
@@ -114,7 +114,7 @@ void bug_c(char s,Const char *m)
   fprintf(stderr,"### %s:  %s\n",p,m);
   if(doabort){
     reentrant = !reentrant;
-    if(reentrant)habort_c();
+    if(reentrant && !bug_cleanup)habort_c(); /* a client that recovers closes its own files */
 #ifdef vms
 # include ssdef
     lib$stop(SS$_ABORT);
@@ -168,7 +168,7 @@ void bugv_c(char s,Const char *m, ...)
 
   if(doabort){
     reentrant = !reentrant;
-    if(reentrant)habort_c();
+    if(reentrant && !bug_cleanup)habort_c(); /* a client that recovers closes its own files */
     if (bug_cleanup) {
         (*bug_cleanup)();       /* call it */
         fprintf(stderr,"### bug_cleanup: code should not come here, goodbye\n");
-- 
2.43.0


From 52f72b04fecc76c4671fc7f6e4b17081111343a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 40/53] fix: UV.read: return the channels of this record

The buffer was sized by the first record, so that records with more channels
raised an error and ones with fewer came with a tail of uninitialised data and
flags.
---
 aipy/miriad.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index c59d9db..c83d1c1 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -217,9 +217,10 @@ class UV(_miriad.UV):
         """Return the next data record.  Calling this function causes
         vars to change to reflect the record which this function returns.
         'raw' causes data and flags to be returned seperately."""
-        preamble, data, flags, nread = self.raw_read(self.nchan)
+        preamble, data, flags, nread = self.raw_read(_miriad.MAXCHAN)
         if nread == 0: raise IOError("No data read")
-        flags = np.logical_not(flags)
+        # The number of channels can change from record to record
+        data, flags = data[:nread].copy(), np.logical_not(flags[:nread])
         if raw: return preamble, data, flags
         return preamble, np.ma.array(data, mask=flags)
     def all(self, raw=False):
-- 
2.43.0


From 898ab25f141da93634b1d41068f81989151794e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 41/53] fix: UV.write: accept data whose mask is a scalar

---
 aipy/miriad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index c83d1c1..47f443c 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -238,7 +238,7 @@ class UV(_miriad.UV):
         if not flags is None: flags = np.logical_not(flags)
         elif len(data.mask.shape) == 0:
             flags = np.ones(data.shape)
-            data = data.unmask()
+            data = data.data
         else:
             flags = np.logical_not(data.mask)
             #data = data.filled(0)
-- 
2.43.0


From 6f856e378ffd79d0e78f481c67dd9d51a5e68861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 42/53] fix: UV.init_from_uv: accept variables that get their
 first value in a later record

---
 aipy/miriad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 47f443c..0d77a08 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -264,8 +264,10 @@ class UV(_miriad.UV):
                 self._wrvr(k, uv.vartable[k], override[k])
             else:
                 self.vartable[k] = uv.vartable[k]
-                self._wrvr(k, uv.vartable[k], uv[k])
                 uv.trackvr(k, 'c') # Set to copy when copyvr() called
+                try: val = uv[k]
+                except(RuntimeError): continue # Has no value before a later record
+                self._wrvr(k, uv.vartable[k], val)
     def pipe(self, uv, mfunc=echo, append2hist='', raw=False):
         """Pipe in data from another UV through the function
         mfunc(uv,preamble,data), which should return (preamble,data).  If
-- 
2.43.0


From 1a097e5d6073c9b0a9a88731d26ffb1bd1da5d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 43/53] fix: UV.pipe: accept data sets without a history

---
 aipy/miriad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 0d77a08..f97a217 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -274,7 +274,9 @@ class UV(_miriad.UV):
         mfunc is not provided, the dataset will just be cloned, and if the
         returned data is None, it will be omitted.  The string 'append2hist'
         will be appended to history."""
-        self._wrhd('history', self['history'] + append2hist)
+        try: append2hist = self['history'] + append2hist
+        except(IOError): pass # There is no history yet
+        if append2hist: self._wrhd('history', append2hist)
         # Pipe all data through mfunc
         if raw:
             for p,d,f in uv.all(raw=raw):
-- 
2.43.0


From 50264f9da0ae41b20716efdddcb7464a2b0a3472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 44/53] fix: uvselect: find the pair of a record written with
 its antennas in descending order

Such a record was looked up under another pair (or outside the table).
---
 aipy/_miriad/mir/uvio.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 5fe954b..05af191 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3133,11 +3133,14 @@ private int uvread_select(UV *uv)
     if(sel->selants){
       bl = *((float *)(uv->bl->buf)) + 0.5;
       uvbasant_c(bl,&i1,&i2);
-      if(i1 < 1 || i2 > MAXANT){
+      if(i1 < 1 || i2 < 1 || i1 > MAXANT || i2 > MAXANT){
 	ERROR('w',(message,"Discarded data with bad antenna numbers when selecting: (%d,%d) baseline number is %d\n",i1,i2,bl));
 	discard = TRUE;
       }else{
-        discard = sel->ants[(i2*(i2-1))/2+i1-1];
+        n = max(i1,i2);
+        i1 = min(i1,i2);
+        discard = sel->ants[(n*(n-1))/2+i1-1];
+        n = 0;
       }
       if(discard) goto endloop;
     }
-- 
2.43.0


From 2ddb9b88af3d204a526da6501e99255379637638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 45/53] fix: uv_selector: select the polarization with antennas
 'all' too

---
 aipy/scripting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/scripting.py b/aipy/scripting.py
index 2143787..4acf684 100644
--- a/aipy/scripting.py
+++ b/aipy/scripting.py
@@ -109,8 +109,8 @@ def uv_selector(uv, ants=-1, pol_str=-1):
     """Call uv.select with appropriate options based on string argument for
     antennas (can be 'all', 'auto', 'cross', '0,1,2', or '0_1,0_2') and
     string for polarization ('xx','yy','xy','yx')."""
-    if ants != -1:
-        if type(ants) == str: ants = parse_ants(ants, uv['nants'])
+    if type(ants) == str: ants = parse_ants(ants, uv['nants'])
+    if ants != -1 and len(ants) > 0:
         for cnt,(bl,include,pol) in enumerate(ants):
             if cnt > 0:
                 if include: uv.select('or',-1,-1)
-- 
2.43.0


From 05641249680605a0860200288a8d4a4e17af13d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 46/53] fix: read_files: accept a single file name

---
 aipy/miriad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index f97a217..dd85da7 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -329,7 +329,7 @@ def read_files(filenames, antstr, polstr, decimate=1, decphs=0, verbose=False, r
     from . import scripting, cal
     info = {'lsts':[], 'times':[]}
     data, flgs = {}, {}
-    if type(filenames) == 'str': filenames = [filenames]
+    if isinstance(filenames, str): filenames = [filenames]
     for filename in filenames:
         if verbose: print('   Reading', filename)
         uv = UV(filename)
-- 
2.43.0


From 56b327a468314b3bbd6a5f09bec24b1000f761de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 47/53] fix: raw_write: refuse flags that are not 32-bit
 integers

64-bit flags were taken for 32-bit ones where int and long differ in size.
---
 aipy/_miriad/miriad_wrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 9eb56fe..a2e3e0b 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -162,7 +162,7 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(data, NPY_CFLOAT);
     // Check for both int,long, b/c label of 32b number is platform dependent
     if (TYPE(flags) != NPY_INT && \
-            (sizeof(int) == sizeof(long) && TYPE(flags) != NPY_LONG)) {
+            !(sizeof(int) == sizeof(long) && TYPE(flags) == NPY_LONG)) {
         PyErr_Format(PyExc_ValueError, "type(flags) != NPY_LONG or NPY_INT");
         return NULL;
     }
-- 
2.43.0


From 1aaa84b6074643747ba9e303cec71ca48d311af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:36 +0000
Subject: [PATCH 48/53] fix: hread/hwrite: pass 16-bit items in ints

MIRIAD's int2 is an int in memory: reading one overran the short by two bytes.
---
 aipy/_miriad/miriad_wrap.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index a2e3e0b..8b3134e 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -518,7 +518,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char *st;
+    int in; long lg; float fl; double db; float cx[2]; char *st;
     if (!PyArg_ParseTuple(args, "iiOs", &item_hdl, &offset, &val, &type))
         return NULL;
     try {
@@ -541,8 +541,8 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
                 break;
             case 'j':
                 CHK_INT(val);
-                sh = (short) PyInt_AsLong(val);
-                hwritej_c(item_hdl, &sh, offset, H_INT2_SIZE, &iostat);
+                in = (int) PyInt_AsLong(val); // MIRIAD takes 16-bit items from ints
+                hwritej_c(item_hdl, &in, offset, H_INT2_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT2_SIZE;
                 break;
@@ -592,7 +592,7 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val, *rv;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char st[H_BYTE_SIZE];
+    int in; long lg; float fl; double db; float cx[2]; char st[H_BYTE_SIZE];
     if (!PyArg_ParseTuple(args, "iis", &item_hdl, &offset, &type))
         return NULL;
     try {
@@ -608,9 +608,9 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
                 CHK_IO(iostat);
                 return Py_BuildValue("ii", in, H_INT_SIZE);
             case 'j':
-                hreadj_c(item_hdl, &sh, offset, H_INT2_SIZE, &iostat);
+                hreadj_c(item_hdl, &in, offset, H_INT2_SIZE, &iostat);
                 CHK_IO(iostat);
-                return Py_BuildValue("ii", sh, H_INT2_SIZE);
+                return Py_BuildValue("ii", in, H_INT2_SIZE);
             case 'l':
                 hreadl_c(item_hdl, &lg, offset, H_INT8_SIZE, &iostat);
                 CHK_IO(iostat);
-- 
2.43.0


From 2536439992d89accdc0d470155e2f700d714ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:58 +0000
Subject: [PATCH 49/53] fix: let UV.pipe(raw=True) clone without a function

---
 aipy/miriad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index dd85da7..7e179ef 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -11,7 +11,7 @@ __version__ = '0.1.2'
 import numpy as np
 from . import _miriad
 
-def echo(uv, p, d): return p, d
+def echo(uv, p, d, f=None): return (p, d) if f is None else (p, d, f)
 
 str2pol = {
     'I' :  1,   # Stokes Paremeters
-- 
2.43.0


From f7baa426f5f62600a42684ac8bb3592c053bae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:15 +0000
Subject: [PATCH 50/53] fix: HelmboldtFixedBody.get_params() with no list
 returns all parameters

---
 aipy/_src/helm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index f19d5ba..0c335cf 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -20,7 +20,7 @@ class HelmboldtFixedBody(a.fit.RadioFixedBody):
         except(TypeError): B,C,D = (self.index,0,0)
         X = np.log10(afreqs / self.mfreq)
         self.jys = 10**(A + B*X + C*np.exp(D*X))
-    def get_params(self, prm_list=None):
+    def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {
             'jys':      float(self._jys),
-- 
2.43.0


From 5364c74b8555fd0b4d7e98eccb4614db5727687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:29 +0000
Subject: [PATCH 51/53] fix: read data sets with more than 128 variables
 (variable number in the stream is unsigned)

---
 aipy/_miriad/mir/uvio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 05af191..a7356bd 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1886,7 +1886,7 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
     changed = FALSE;
     if(*(s+2) != VAR_EOR){
-      v = &uv->variable[(int) *s];       /*  warning: array subscript has type `char' */
+      v = &uv->variable[(unsigned char) *s];
       intsize = internal_size[v->type];
       extsize = external_size[v->type];
     }
-- 
2.43.0


From 1a997e72550fbd4879e4d959d77a13d61c74089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:29 +0000
Subject: [PATCH 52/53] fix: refuse a 257th variable instead of overrunning the
 table

---
 aipy/_miriad/mir/uvio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index a7356bd..8e1c949 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1240,6 +1240,8 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* We are going to have to create it. */
 
   uv = uvs[tno];
+  if(uv->nvar >= MAXVAR)
+    ERROR('f',(message,"Too many variables to add %s, in UVPUTVR",name));
   n = uv->nvar++;
   v = &uv->variable[n];
   Strcpy(v->name,name);
-- 
2.43.0


From f98c60ac08f9b91a8093c1b2897db705b573f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:31 +0000
Subject: [PATCH 53/53] fix: take offsets of items as 64-bit when filling a
 buffer (hwrite_fill_c)

---
 aipy/_miriad/mir/hio.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index f612bd1..d2c8f06 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -136,7 +136,7 @@ private int first=TRUE;
 static void hinit_c(void);
 static int hfind_nl(char *buf, int len);
 static void hcheckbuf_c(ITEM *item, off64_t next, int *iostat);
-static void hwrite_fill_c(ITEM *item, IOB *iob, int next, int *iostat);
+static void hwrite_fill_c(ITEM *item, IOB *iob, off64_t next, int *iostat);
 static void hcache_create_c(TREE *t, int *iostat);
 static void hcache_read_c(TREE *t, int *iostat);
 static int hname_check(char *name);
@@ -1171,7 +1171,7 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
   }
 }
 /************************************************************************/
-private void hwrite_fill_c(ITEM *item,IOB *iob,int next,int *iostat)
+private void hwrite_fill_c(ITEM *item,IOB *iob,off64_t next,int *iostat)
 /*
   A nonaligned nonsequential write operation has been requested. Read in the
   portion that we are missing. We need to fill the i/o buffer up to at
@@ -1187,7 +1187,7 @@ private void hwrite_fill_c(ITEM *item,IOB *iob,int next,int *iostat)
 ------------------------------------------------------------------------*/
 {
   char buffer[BUFSIZE];
-  int offset,length;
+  off64_t offset,length;
 
   offset = BUFALIGN * ((iob->offset + iob->length) / BUFALIGN);
   length = BUFALIGN * ((next-1)/BUFALIGN + 1) - offset;
-- 
2.43.0

