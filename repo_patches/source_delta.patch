From 39f97dcfe70bc28ee5619f3eb34831042a35287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:40 +0000
Subject: [PATCH 01/93] fix: make digests injective in the values of their
 dependencies

Values were joined without separator, arrays were abbreviated by str() and
unresolvable dependencies left no trace, so differently configured objects
shared a digest (and with it a cache file).
---
 acoular/internal.py | 61 ++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/acoular/internal.py b/acoular/internal.py
index f29480d..743e3f8 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -1,25 +1,36 @@
-# ------------------------------------------------------------------------------
-# Copyright (c) Acoular Development Team.
-# ------------------------------------------------------------------------------
-
-from hashlib import md5
-
-
-def digest(obj, name='digest'):
-    str_ = [str(obj.__class__).encode('UTF-8')]
-    for do_ in obj.trait(name).depends_on:
-        vobj = obj
-        try:
-            for i in do_.split('.'):
-                vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
-            str_.append(str(vobj).encode('UTF-8'))
-        except:  # noqa: E722
-            pass
-    return '_' + md5(b''.join(str_)).hexdigest()
-
-
-def ldigest(obj_list):
-    str_ = []
-    for i in obj_list:
-        str_.append(str(i.digest).encode('UTF-8'))
-    return '_' + md5(b''.join(str_)).hexdigest()
+# ------------------------------------------------------------------------------
+# Copyright (c) Acoular Development Team.
+# ------------------------------------------------------------------------------
+
+from hashlib import md5
+
+
+def _token(value):
+    # arrays contribute their full content: str() abbreviates large arrays and rounds values
+    if hasattr(value, 'tobytes') and not getattr(value.dtype, 'hasobject', True):
+        raw = f'{value.dtype}{value.shape}'.encode() + value.tobytes()
+    else:
+        raw = str(value).encode('UTF-8')
+    # the length prefix keeps neighbouring values apart
+    return str(len(raw)).encode('UTF-8') + b':' + raw
+
+
+def digest(obj, name='digest'):
+    str_ = [str(obj.__class__).encode('UTF-8')]
+    for do_ in obj.trait(name).depends_on:
+        vobj = obj
+        try:
+            for i in do_.split('.'):
+                vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
+            str_.append(_token(vobj))
+        except:  # noqa: E722
+            # an unresolvable dependency still occupies its position
+            str_.append(b'-')
+    return '_' + md5(b''.join(str_)).hexdigest()
+
+
+def ldigest(obj_list):
+    str_ = []
+    for i in obj_list:
+        str_.append(_token(i.digest))
+    return '_' + md5(b''.join(str_)).hexdigest()
-- 
2.43.0


From db4d3ec6018ca80462497e02a773a0c4ded78920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 02/93] fix: AngleTracker digest ignores start, stop and
 invalid_channels

---
 acoular/tprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 014f751..87d2f9c 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -520,6 +520,9 @@ class AngleTracker(MaskedTimeOut):
     digest = Property(
         depends_on=[
             'source.digest',
+            'start',
+            'stop',
+            'invalid_channels',
             'trigger.digest',
             'trigger_per_revo',
             'rot_direction',
-- 
2.43.0


From 19e1517c7d8f2b6dbbd9169989dd77bbc115b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 03/93] fix: Calib digest ignores invalid_channels

---
 acoular/calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index 06a57e1..6ac37ba 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -98,7 +98,7 @@ class Calib(InOut):
     channels = Property(depends_on=['invalid_channels', 'num_mics'], desc='channel mask')
 
     # Internal identifier
-    digest = Property(depends_on=['source.digest', 'data'])
+    digest = Property(depends_on=['source.digest', 'data', 'invalid_channels'])
 
     @on_trait_change('data')
     def set_num_mics(self):
-- 
2.43.0


From 9d33c4057b5f83d608cc82066fd8dd70ecd3a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 04/93] fix: BeamformerDamasPlus digest ignores psf_precision

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a4baf27..7cbbd38 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1273,7 +1273,7 @@ class BeamformerDamasPlus(BeamformerDamas):
 
     # internal identifier
     digest = Property(
-        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['alpha', 'method', 'n_iter', 'unit_mult'],
+        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['psf_precision', 'alpha', 'method', 'n_iter', 'unit_mult'],
     )
 
     @cached_property
-- 
2.43.0


From aaaecb0766a1ca9082a025411ba8010c91bdecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 05/93] fix: BeamformerGridlessOrth digest ignores the number
 of components

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 7cbbd38..dae3e24 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2374,7 +2374,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
 
     # internal identifier
     digest = Property(
-        depends_on=['freq_data.digest', 'steer.digest', 'precision', 'r_diag', 'eva_list', 'bounds', 'shgo'],
+        depends_on=['freq_data.digest', 'steer.digest', 'precision', 'r_diag', 'eva_list', 'n', 'bounds', 'shgo'],
     )
 
     @cached_property
-- 
2.43.0


From 44bb885d820176ab1667c57cdd81da6febafd6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 06/93] fix: SamplesBuffer digest ignores its own configuration

---
 acoular/process.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acoular/process.py b/acoular/process.py
index 856c30a..90fd5a3 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -813,6 +813,11 @@ class SamplesBuffer(InOut):
     #: The data type of the elements in the buffer.
     dtype = Any(desc='data type of the buffer')
 
+    # internal identifier
+    digest = Property(
+        depends_on=['source.digest', 'length', 'source_num', 'result_num', 'shift_index_by', 'dtype'],
+    )
+
     # Flag indicating if the source is empty (for internal use).
     _empty_source = Bool(False, desc='flag to indicate that the source is empty')
 
@@ -822,6 +827,10 @@ class SamplesBuffer(InOut):
     # The current index position in the buffer.
     _index = Int(desc='current index in buffer')
 
+    @cached_property
+    def _get_digest(self):
+        return digest(self)
+
     def _get_level(self):
         return self._buffer.shape[0] - self._index
 
-- 
2.43.0


From 0e85b899b939a50b4142f1486ebe1bdffbae8351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 07/93] fix: LineSource digest ignores length and num_sources

---
 acoular/sources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0d3bd5c..b162722 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1628,6 +1628,8 @@ class LineSource(PointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
             'source_strength',
             'coherence',
         ],
-- 
2.43.0


From a52c53b7dc5cc0581a68a9d8b58a0c30c5e5bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 08/93] fix: MovingPointSource digest ignores the upsampling
 factor

---
 acoular/sources.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index b162722..2b25457 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1117,6 +1117,7 @@ class MovingPointSource(PointSource):
             'env.digest',
             'start_t',
             'start',
+            'up',
             'trajectory.digest',
             'prepadding',
         ],
-- 
2.43.0


From c34570ed1267f9b51c2856a0177e2b23682e38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 09/93] fix: MovingPointSourceDipole digest ignores trajectory,
 rvec and conv_amp

---
 acoular/sources.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index 2b25457..1ddca4c 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1379,11 +1379,14 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             'mics.digest',
             'signal.digest',
             'loc',
+            'conv_amp',
             'env.digest',
             'start_t',
             'start',
             'up',
             'direction',
+            'rvec',
+            'trajectory.digest',
         ],
     )
 
-- 
2.43.0


From bf6df9899faf8745e89fecddff945a46018e5055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 10/93] fix: MovingLineSource digest ignores most of the
 source's own parameters

---
 acoular/sources.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index 1ddca4c..0f5dd4f 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1743,11 +1743,18 @@ class MovingLineSource(LineSource, MovingPointSource):
             'mics.digest',
             'signal.digest',
             'loc',
+            'conv_amp',
             'env.digest',
             'start_t',
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
+            'source_strength',
+            'coherence',
+            'rvec',
+            'trajectory.digest',
         ],
     )
 
-- 
2.43.0


From c5dbde1382126370c122dcc36f1cc61399d548a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 11/93] fix: SphericalHarmonicSource digest ignores direction

---
 acoular/sources.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0f5dd4f..4c5f201 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -981,6 +981,7 @@ class SphericalHarmonicSource(PointSource):
             'start_t',
             'start',
             'up',
+            'direction',
             'alpha',
             'lOrder',
             'prepadding',
-- 
2.43.0


From 89fd0b2dc1bffbb9f9319d50d9251c936c8e532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 12/93] fix: SoundDeviceSamplesGenerator digest ignores
 sample_freq and precision

---
 acoular/sdinput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/sdinput.py b/acoular/sdinput.py
index 005ff10..282cb0a 100644
--- a/acoular/sdinput.py
+++ b/acoular/sdinput.py
@@ -50,7 +50,7 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
     collect_samples = Bool(True, desc='Indicates if samples are collected')
 
     #: Sampling frequency of the signal, changes with sinusdevices
-    sample_freq = Property(desc='sampling frequency')
+    sample_freq = Property(depends_on=['_sample_freq'], desc='sampling frequency')
 
     _sample_freq = Float(default_value=None)
 
@@ -67,7 +67,7 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
     stream = Any
 
     # internal identifier
-    digest = Property(depends_on=['device', 'num_channels', 'num_samples'])
+    digest = Property(depends_on=['device', 'num_channels', 'num_samples', 'sample_freq', 'precision'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 3c102e47a9d4dc356f90a79a168d7225b6c72676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 13/93] fix: digests of rotating interpolators ignore num_IDW
 and p_weight

---
 acoular/tprocess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 87d2f9c..1f62284 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1177,6 +1177,8 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
             'method',
             'array_dimension',
             'Q',
+            'num_IDW',
+            'p_weight',
             'interp_at_zero',
         ],
     )
@@ -1232,6 +1234,8 @@ class SpatialInterpolatorConstantRotation(SpatialInterpolator):  # pragma: no co
             'method',
             'array_dimension',
             'Q',
+            'num_IDW',
+            'p_weight',
             'interp_at_zero',
             'rotational_speed',
         ],
-- 
2.43.0


From 833a2c1a7fe831a94338fdb06141453049d27e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 14/93] fix: MaskedTimeSamples digest ignores sample_freq

---
 acoular/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 4c5f201..0569790 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -609,7 +609,7 @@ class MaskedTimeSamples(TimeSamples):
     )
 
     #: A unique identifier for the samples, based on its properties. (read-only)
-    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', '_datachecksum'])
+    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', 'sample_freq', '_datachecksum'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 032126f281c06bec79cef3638b72357a35eb4647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 15/93] fix: WriteH5 digest ignores num_samples_write, which
 ends its output early

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 1f62284..d5b1f44 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1867,7 +1867,7 @@ class WriteH5(TimeOut):
     write_flag = Bool(True)
 
     # internal identifier
-    digest = Property(depends_on=['source.digest'])
+    digest = Property(depends_on=['source.digest', 'num_samples_write'])
 
     # The floating-number-precision of entries of H5 File corresponding
     # to numpy dtypes. Default is 32 bit.
-- 
2.43.0


From f7785bad489374378c9dc20d62d5594545e9d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 16/93] fix: digest of imported cross-spectral matrices
 identifies csm, frequencies and precision

The checksum was computed from the previous csm, so the first csm assigned
to any two objects left them with the same digest.
---
 acoular/aiaa/aiaa.py | 2 +-
 acoular/spectra.py   | 8 +-------
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index bdb1182..0abbbf7 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -104,7 +104,7 @@ class CsmAIAABenchmark(PowerSpectraImport):
     h5f = Instance(H5FileBase, transient=True)
 
     # internal identifier
-    digest = Property(depends_on=['basename', '_csmsum'])
+    digest = Property(depends_on=['basename', 'precision'])
 
     @cached_property
     def _get_digest(self):
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 94676ff..437331c 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -24,12 +24,10 @@ from numpy import (
     fill_diagonal,
     hamming,
     hanning,
-    imag,
     linalg,
     ndarray,
     newaxis,
     ones,
-    real,
     searchsorted,
     sum,  # noqa A004
     zeros,
@@ -664,7 +662,7 @@ class PowerSpectraImport(PowerSpectra):
     _ind_high = Union(None, Int, desc='index of highest frequency line')
 
     #: A unique identifier for the spectra, based on its properties. (read-only)
-    digest = Property(depends_on=['_csmsum'])
+    digest = Property(depends_on=['_csm', 'frequencies', 'precision'])
 
     #: Name of the cache file without extension. (read-only)
     basename = Property(depends_on=['digest'], desc='basename for cache file')
@@ -672,9 +670,6 @@ class PowerSpectraImport(PowerSpectra):
     # Shadow trait for storing the CSM, for internal use only.
     _csm = CArray()
 
-    # Checksum for the CSM to trigger digest calculation, for internal use only.
-    _csmsum = Float()
-
     def _get_basename(self):
         return 'csm_import_' + self.digest
 
@@ -693,7 +688,6 @@ class PowerSpectraImport(PowerSpectra):
             msg = 'The cross spectral matrix must have the following shape: \
             (number of frequencies, num_channels, num_channels)!'
             raise ValueError(msg)
-        self._csmsum = real(self._csm).sum() + (imag(self._csm) ** 2).sum()  # to trigger new digest creation
         self._csm = csm
 
     @property_depends_on(['digest'])
-- 
2.43.0


From a14221cf7a8a3ab82e31f4a0dc0af1ce97bb4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 17/93] fix: PowerSpectra.ind_low/ind_high stay stale after
 switching between indices and frequencies

The same holds for the frequencies assigned to PowerSpectraImport.
---
 acoular/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 437331c..d471611 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -300,7 +300,7 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc'])
+    @property_depends_on(['source.sample_freq', 'digest', '_ind_low', '_freqlc', '_index_set_last'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -309,7 +309,7 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc'])
+    @property_depends_on(['source.sample_freq', 'digest', '_ind_high', '_freqhc', '_index_set_last'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-- 
2.43.0


From 81feced4efed83252975071cc2a32d4d7b4d8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 18/93] fix: BeamformerEig.na stays stale when microphones are
 added or invalidated

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index dae3e24..3d6afbd 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -855,7 +855,7 @@ class BeamformerEig(BeamformerBase):
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on(['steer.mics', 'n'])
+    @property_depends_on(['steer.mics.digest', 'n'])
     def _get_na(self):
         na = self.n
         nm = self.steer.mics.num_mics
-- 
2.43.0


From ad6da5a83695bfbc1042d40af4070b9c2249b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 19/93] fix: CrossPowerSpectra.num_channels stays stale when
 calc_mode changes

---
 acoular/fprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 8f9e7d9..d8e71a3 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -391,7 +391,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels'])
+    num_channels = Property(depends_on=['source.num_channels', 'calc_mode'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
-- 
2.43.0


From 02dc46e2ca0be7cf8c48055cf3496ce1f3e9de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 20/93] fix: OctaveFilterBank never recomputes its filter
 coefficients

The dependencies were declared for a property that no longer exists.
---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index d5b1f44..6794edd 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1742,7 +1742,7 @@ class OctaveFilterBank(FilterBank):
     fraction = Map({'Octave': 1, 'Third octave': 3}, default_value='Octave', desc='fraction of octave')
 
     # List of filter coefficients for all filters
-    ba = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
+    sos = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
 
     # List of labels for bands
     bands = Property(depends_on=['lband', 'hband', 'fraction'])
-- 
2.43.0


From a1c36de9325228e1caa9af6aced8860ca0725578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 21/93] fix: FilterBank.num_channels does not announce changes
 to downstream objects

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 6794edd..901e377 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1685,7 +1685,7 @@ class FilterBank(TimeOut):
     num_bands = Property()
 
     # Number of bands
-    num_channels = Property()
+    num_channels = Property(depends_on=['num_bands', 'source.num_channels'])
 
     @abstractmethod
     def _get_sos(self):
-- 
2.43.0


From 4936a616045118e386960d05f98f7c35a0dec19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 22/93] fix: GenericSignalGenerator digest ignores a changed
 num_samples

---
 acoular/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/signals.py b/acoular/signals.py
index 9c04ec9..cc05832 100644
--- a/acoular/signals.py
+++ b/acoular/signals.py
@@ -603,7 +603,7 @@ class GenericSignalGenerator(SignalGenerator):
     #: The number of samples to generate. Default is the number of samples available in the
     #: :attr:`source` (``source.num_samples``). If set explicitly, it can exceed the source length,
     #: in which case the signal will loop if :attr:`loop_signal` is ``True``.
-    num_samples = Property()
+    num_samples = Property(depends_on=['_num_samples', 'source.num_samples'])
 
     def _get_num_samples(self):
         if self._num_samples:
-- 
2.43.0


From 46c808aa987fea18e15b08fab8b931d88ae5d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 23/93] fix: IRFFT.num_samples does not follow the block size
 of its source

---
 acoular/fprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index d8e71a3..08c859a 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -62,7 +62,7 @@ class RFFT(BaseSpectra, SpectraOut):
 
     #: The length of each block of time-domain data used for the FFT. Must be an even number.
     #: Default is ``1024``.
-    block_size = Property()
+    block_size = Property(depends_on=['_block_size'])
 
     #: The number of frequency bins in the FFT result, calculated as ``block_size // 2 + 1``.
     num_freqs = Property(depends_on=['_block_size'])
@@ -198,7 +198,7 @@ class IRFFT(TimeOut):
     #: The total number of time-domain samples in the output.
     #: Computed as the product of the number of input samples and the block size.
     #: Returns ``-1`` if the number of input samples is negative.
-    num_samples = Property(depends_on=['source.num_samples', 'source._block_size'])
+    num_samples = Property(depends_on=['source.num_samples', 'source.block_size'])
 
     # Internal signal buffer used for handling arbitrary output block sizes. Optimizes
     # processing when the requested output block size does not match the source block size.
-- 
2.43.0


From 47bed8bafb935ef224ab2dab23a952056d227078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 24/93] fix: SpatialInterpolator keeps coordinates, channel
 count and digest of former microphones

---
 acoular/tprocess.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 901e377..f203a12 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -676,7 +676,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     mics = Instance(MicGeom(), desc='microphone geometry')
 
     # :class:`~acoular.microphones.MicGeom` object that provides the virtual microphone locations.
-    mics_virtual = Property(desc='microphone geometry')
+    mics_virtual = Property(depends_on=['mics', '_mics_virtual'], desc='microphone geometry')
 
     _mics_virtual = Instance(MicGeom, desc='internal microphone geometry;internal usage, read only')
 
@@ -711,7 +711,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     sample_freq = Delegate('source', 'sample_freq')
 
     # Number of channels in output.
-    num_channels = Property()
+    num_channels = Property(depends_on=['mics_virtual.digest'])
 
     # Number of samples in output, as given by :attr:`source`.
     num_samples = Delegate('source', 'num_samples')
@@ -734,8 +734,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     )
 
     # Stores the output of :meth:`_virtNewCoord_func`; Read-Only
-    _virtNewCoord_func = Property(  # noqa: N815
-        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero'],
+    virtNewCoord = Property(  # noqa: N815
+        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero', 'Q'],
     )
 
     # internal identifier
@@ -938,7 +938,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
         # number of virtual mixcs
         nVirtMics = self.mics_virtual.mpos.shape[1]
         # mesh and projection onto polar Coordinates
-        meshList, virtNewCoord, newCoord = self._get_virtNewCoord()
+        meshList, virtNewCoord, newCoord = self.virtNewCoord
         # pressure interpolation init
         pInterp = zeros((nTime, nVirtMics))
         # Coordinates in cartesian CO - for IDW interpolation
-- 
2.43.0


From 4982e51c2f2f8655b656ba5ffe445d719d82643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 25/93] fix: TimeSamples digest survives the replacement of its
 data

---
 acoular/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0569790..de388e6 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -397,7 +397,7 @@ class TimeSamples(SamplesGenerator):
     metadata = Dict(desc='metadata contained in .h5 file')
 
     # Checksum over first data entries of all channels
-    _datachecksum = Property()
+    _datachecksum = Property(depends_on=['data'])
 
     #: A unique identifier for the samples, based on its properties. (read-only)
     digest = Property(
-- 
2.43.0


From d6d26c6cdb45a008b9493bda54cb8e3e3713943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 26/93] fix: BeamformerTime.num_channels does not announce
 changes of the grid

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 34daa16..ff2ef11 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -103,7 +103,7 @@ class BeamformerTime(TimeOut):
     steer = Instance(SteeringVector, args=())
 
     #: Number of channels in output (=number of grid points).
-    num_channels = Property()
+    num_channels = Property(depends_on=['steer.digest'])
 
     #: Spatial weighting function.
     weights = Map(possible_weights, default_value='none', desc='spatial weighting function')
-- 
2.43.0


From f99afe9ab9b3518d2b6c00b0239a36b26ae60292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 27/93] fix: SoundDeviceSamplesGenerator.sample_freq does not
 announce the default of another device

---
 acoular/sdinput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sdinput.py b/acoular/sdinput.py
index 282cb0a..030cd59 100644
--- a/acoular/sdinput.py
+++ b/acoular/sdinput.py
@@ -50,7 +50,7 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
     collect_samples = Bool(True, desc='Indicates if samples are collected')
 
     #: Sampling frequency of the signal, changes with sinusdevices
-    sample_freq = Property(depends_on=['_sample_freq'], desc='sampling frequency')
+    sample_freq = Property(depends_on=['_sample_freq', 'device'], desc='sampling frequency')
 
     _sample_freq = Float(default_value=None)
 
-- 
2.43.0


From 82c2fa34b93f6aec5574b9d7a164ab83a254241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 28/93] fix: SteeringVector.inv_digest depends on the steering
 vector type it excludes

The getter hashed the dependencies of `digest`, and kept the hash of the steer_type
that was current when it was first read.
---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 3d6afbd..8b816a0 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -221,7 +221,7 @@ class SteeringVector(HasStrictTraits):
 
     @cached_property
     def _get_inv_digest(self):
-        return digest(self)
+        return digest(self, 'inv_digest')
 
     def transfer(self, f, ind=None):
         """Calculates the transfer matrix for one frequency.
-- 
2.43.0


From 5a4bbac9b04a2a56e01373ea89b949f286f89d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 29/93] fix: SteeringVector.r0 calls the property grid.pos when
 ref is zero

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 8b816a0..21b6dfd 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -208,7 +208,7 @@ class SteeringVector(HasStrictTraits):
         if isscalar(self.ref):
             if self.ref > 0:
                 return full((self.grid.size,), self.ref)
-            return self.env._r(self.grid.pos())
+            return self.env._r(self.grid.pos)
         return self.env._r(self.grid.pos, self.ref[:, newaxis])
 
     @property_depends_on(['grid.digest', 'mics.digest', 'env.digest'])
-- 
2.43.0


From 0a102f3acb7c58887a693dd734e67c9c75c516b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 30/93] fix: result[-1] returns a frequency that was never
 computed

slice(-1, 0) is empty, so the lazy evaluation was skipped and zeros were returned.
---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 21b6dfd..22421a1 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -293,7 +293,7 @@ class LazyBfResult:
         # 'intelligent' [] operator checks if results are available and triggers calculation
         sl = index_exp[key][0]
         if isinstance(sl, (int, integer)):
-            sl = slice(sl, sl + 1)
+            sl = slice(sl, sl + 1 or None)
         # indices which are missing
         missingind = arange(*sl.indices(self.bf._numfreq))[self.bf._fr[sl] == 0]
         # calc if needed
-- 
2.43.0


From 7aa096eecc0d20107560687d58e846204d97e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 31/93] fix: adaptive grid beamformers write to the cache file
 in readonly mode

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 22421a1..240b839 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -430,7 +430,7 @@ class BeamformerBase(HasStrictTraits):
         ):
             (ac, fr, gpos) = self._get_filecache()  # can also be (None, None, None)
             if gpos:  # we have an adaptive grid
-                self._gpos = gpos
+                self._gpos = gpos[:] if config.global_caching == 'readonly' else gpos
         if ac and fr:  # cached data is available
             if config.global_caching == 'readonly':
                 (ac, fr) = (ac[:], fr[:])  # so never write back to disk
-- 
2.43.0


From 291376550f5badafd220b5a952389d7931831205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 32/93] fix: GeneralFlowEnvironment reuses ray interpolators of
 a former flow or region

Stored interpolators survived changes of c, ff, N, Om and roi, were shared between different
regions of interest, and roi was missing from the digest.
---
 acoular/environments.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index f179e06..bbb3bce 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -65,6 +65,7 @@ from traits.api import (
     Property,
     Union,
     cached_property,
+    on_trait_change,
 )
 
 from .internal import digest
@@ -819,7 +820,7 @@ class GeneralFlowEnvironment(Environment):
 
     #: A unique identifier based on the environment properties. (read-only)
     digest = Property(
-        depends_on=['c', 'ff.digest', 'N', 'Om'],
+        depends_on=['c', 'ff.digest', 'N', 'Om', 'roi'],
     )
 
     #: A dictionary for storing precomputed interpolators to optimize repeated calculations.
@@ -830,22 +831,27 @@ class GeneralFlowEnvironment(Environment):
     def _get_digest(self):
         return digest(self)
 
+    @on_trait_change('digest')
+    def _clear_interpolators(self):
+        self.idict = {}
+
     def _r(self, gpos, mpos=0.0):
         c = self.c
 
         if isscalar(mpos):
             mpos = array((0, 0, 0), dtype=float32)[:, newaxis]
 
+        roi = gpos
+        if self.roi is not None:
+            roi = self.roi
+        roi_key = roi.tobytes()
         gt = empty((gpos.shape[-1], mpos.shape[-1]))
         for micnum, x0 in enumerate(mpos.T):
-            key = x0.tobytes()  # make array hashable
+            key = (x0.tobytes(), roi_key)  # make arrays hashable
             try:
                 li = self.idict[key]  # fetch stored interpolator
             except KeyError:
                 # if interpolator doesn't exist, construct it
-                roi = gpos
-                if self.roi is not None:
-                    roi = self.roi
                 li = self.get_interpolator(roi, x0)
                 self.idict[key] = li
             # do the interpolation
-- 
2.43.0


From a0542d9fdd6ca45c7becdd9bbac880a9c17e52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 33/93] fix: BeamformerGridlessOrth overwrites the roi of the
 shared environment

---
 acoular/fbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 240b839..07f2447 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2418,7 +2418,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
             msg = 'custom steer_type is not implemented'
             raise NotImplementedError(msg)
         mpos = self.steer.mics.pos
-        env = self.steer.env
+        env = self.steer.env.clone_traits()  # the shared environment keeps its own roi
         shgo_opts = {
             'n': 256,
             'iters': 1,
@@ -2431,7 +2431,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
             for y in self.bounds[1]:
                 for z in self.bounds[2]:
                     roi.append((x, y, z))
-        self.steer.env.roi = array(roi).T
+        env.roi = array(roi).T
         bmin = array(tuple(map(min, self.bounds)))
         bmax = array(tuple(map(max, self.bounds)))
         for i in ind:
-- 
2.43.0


From b3287d3ad0eabc40ae4167cd87163c454d4a6c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:47 +0000
Subject: [PATCH 34/93] fix: BeamformerAdaptiveGrid.integrate fails, the lazy
 result has no shape

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 07f2447..846cb42 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2329,7 +2329,7 @@ class BeamformerAdaptiveGrid(BeamformerBase, Grid):
             )
 
         ind = self.subdomain(sector)
-        r = self.result
+        r = self.result[:]
         h = zeros(r.shape[0])
         for i in range(r.shape[0]):
             h[i] = r[i][ind].sum()
-- 
2.43.0


From 24440129bfa8df50760c514a3e88ce601e7a2687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 35/93] fix: Mixer adds the other signals to the data of its
 source

The blocks of TimeSamples are views on its data, so the stored signal was changed.
---
 acoular/tprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index f203a12..a91beb0 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1345,7 +1345,8 @@ class Mixer(TimeOut):
                     return
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
-                temp += temp1[: temp.shape[0]]
+                # the block may be a view on the data of the source
+                temp = temp + temp1[: temp.shape[0]]
             yield temp
             if sh > temp.shape[0]:
                 break
-- 
2.43.0


From b95efd520ef6485afde9e5b5b153874bb127b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 36/93] fix: SourceMixer scales the data of its first source in
 place

---
 acoular/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index de388e6..4730e1e 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2330,7 +2330,8 @@ class SourceMixer(SamplesGenerator):
             weights = array([1.0 for j in range(len(self.sources))])
         assert weights.shape[0] == len(self.sources)
         for temp in self.sources[0].result(num):
-            temp *= weights[0]
+            # the block may be a view on the data of the source
+            temp = temp * weights[0]
             sh = temp.shape[0]
             for j, g in enumerate(gens):
                 temp1 = next(g) * weights[j + 1]
-- 
2.43.0


From cc1a78de278b9de0313a698e31a7f3bdc4bc8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 37/93] fix: SourceMixer raises RuntimeError when a source runs
 out of blocks

---
 acoular/sources.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 4730e1e..94e9566 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2334,7 +2334,10 @@ class SourceMixer(SamplesGenerator):
             temp = temp * weights[0]
             sh = temp.shape[0]
             for j, g in enumerate(gens):
-                temp1 = next(g) * weights[j + 1]
+                try:
+                    temp1 = next(g) * weights[j + 1]
+                except StopIteration:
+                    return
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
                 temp += temp1[: temp.shape[0]]
-- 
2.43.0


From 4f788f3a48f9ada7418b5fae93d4a1c3df642ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 38/93] fix: time domain beamformers apply the spatial weights
 repeatedly

The buffer yields overlapping views on its own memory. Weighting them in place weighted the samples
that are part of the next block again.
---
 acoular/tbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index ff2ef11..86bce87 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -171,6 +171,8 @@ class BeamformerTime(TimeOut):
             dtype=fdtype,
         )
         for p_res in buffer.result(num):
+            # the buffer yields overlapping views on its own memory
+            p_res = p_res.copy()
             p_res *= weights
             if p_res.shape[0] < buffer.result_num:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
@@ -423,7 +425,6 @@ class BeamformerTimeTraj(BeamformerTime):
 
             try:
                 time_block = next(buffered_result)
-                time_block *= weights
             except StopIteration:
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
@@ -432,6 +433,7 @@ class BeamformerTimeTraj(BeamformerTime):
                 flag = False
             # init step
             p_res = time_block.copy()
+            p_res *= weights
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
             if 'Cleant' not in self.__class__.__name__:
                 if 'Sq' not in self.__class__.__name__:
-- 
2.43.0


From 47864d78b3eb9cf494d1c7f39d443f2b0cd37d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 39/93] fix: BeamformerTimeTraj raises RuntimeError at the end
 of the trajectory

---
 acoular/tbeamform.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 86bce87..3e9f80a 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -408,12 +408,18 @@ class BeamformerTimeTraj(BeamformerTime):
         buffered_result = buffer.result(num)
         while flag:
             for i in range(num):
-                tpos = next(movgpos).astype(fdtype)
+                try:
+                    tpos = next(movgpos).astype(fdtype)
+                except StopIteration:
+                    return  # end of the trajectory
                 rm = self.steer.env._r(tpos, mpos)  # .astype(fdtype)
                 blockr0[i, :] = self.get_r0(tpos)
                 blockrm[i, :, :] = rm
                 if self.conv_amp:
-                    ht = next(movgspeed)
+                    try:
+                        ht = next(movgspeed)
+                    except StopIteration:
+                        return  # end of the trajectory
                     blockrmconv[i, :, :] = rm * (1 - self._get_macostheta(ht, tpos, rm)) ** 2
             if self.conv_amp:
                 steer_func(blockrmconv, blockr0, amp)
-- 
2.43.0


From d59c017bce4b63d2080c5778c064ce8cc8e25766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 40/93] fix: Trajectory.traj ignores an end time of zero

---
 acoular/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/trajectory.py b/acoular/trajectory.py
index fca6b6f..594249d 100644
--- a/acoular/trajectory.py
+++ b/acoular/trajectory.py
@@ -190,7 +190,7 @@ class Trajectory(HasStrictTraits):
         if not delta_t:
             delta_t = t_start
             t_start, t_end = self.interval
-        if not t_end:
+        if t_end is None:
             t_end = self.interval[1]
         # all locations are fetched in one go because that is much faster further improvement could
         # be possible if interpolated locations are fetched in blocks
-- 
2.43.0


From 725dd0aeadcb047f2ad17b9ff64a100b411e1ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 41/93] fix: TimeReverse repeats the last block of sources that
 reuse their output buffer

---
 acoular/tprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index a91beb0..cffdffd 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1433,8 +1433,10 @@ class TimeReverse(TimeOut):
             The last block may be shorter than num.
 
         """
-        result_list = []
-        result_list.extend(self.source.result(num))
+        # the source may reuse the memory of a block for the next one
+        result_list = [block.copy() for block in self.source.result(num)]
+        if not result_list:
+            return
         temp = empty_like(result_list[0])
         h = result_list.pop()
         nsh = h.shape[0]
-- 
2.43.0


From 788bc7930194fe98663983552665da75ac4f974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 42/93] fix: FilterBank fails when the last block is shorter
 than the others

---
 acoular/tprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index cffdffd..2048b2b 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1727,9 +1727,11 @@ class FilterBank(TimeOut):
         zi = [zeros((sos[0].shape[0], 2, snumch)) for _ in range(numbands)]
         res = zeros((num, self.num_channels), dtype='float')
         for block in self.source.result(num):
+            # the last block may be shorter than num
+            bsize = block.shape[0]
             for i in range(numbands):
-                res[:, i * snumch : (i + 1) * snumch], zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
-            yield res
+                res[:bsize, i * snumch : (i + 1) * snumch], zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
+            yield res[:bsize]
 
 
 class OctaveFilterBank(FilterBank):
-- 
2.43.0


From 1e9492a0a0a39ef260439568fe7b6ad249cdd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 43/93] fix: TimeConvolve is wrong for kernels longer than a
 block

The frequency domain delay line was never advanced, a total length that is a multiple of the block
size lost its last block, and an empty source raised RuntimeError.
---
 acoular/tprocess.py | 56 ++++++++++++++++++---------------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 2048b2b..c5c7dfc 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -2044,59 +2044,47 @@ class TimeConvolve(TimeOut):
         self._block_size = num
         L = self.kernel.shape[0]
         N = self.source.num_channels
-        M = self.source.num_samples
         numblocks_kernel = int(ceil(L / num))  # number of kernel blocks
-        Q = int(ceil(M / num))  # number of signal blocks
-        R = int(ceil((L + M - 1) / num))  # number of output blocks
-        last_size = (L + M - 1) % num  # size of final block
 
-        idx = 0
         fdl = zeros([numblocks_kernel, num + 1, N], dtype='complex128')
         buff = zeros([2 * num, N])  # time-domain input buffer
         spec_sum = zeros([num + 1, N], dtype='complex128')
-
-        signal_blocks = self.source.result(num)
-        temp = next(signal_blocks)
-        buff[num : num + temp.shape[0]] = temp  # append new time-data
-
-        # for very short signals, we are already done
-        if R == 1:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
-            yield irfft(spec_sum, axis=0)[num : last_size + num]
-            return
+        tail = L - 1  # number of samples that follow the end of the signal
 
         # stream processing of source signal
-        for temp in signal_blocks:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            yield irfft(spec_sum, axis=0)[num:]
+        for temp in self.source.result(num):
+            ns = temp.shape[0]
             buff = concatenate(
                 [buff[num:], zeros([num, N])],
                 axis=0,
             )  # shift input buffer to the left
-            buff[num : num + temp.shape[0]] = temp  # append new time-data
-
-        for _ in range(R - Q):
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
+            buff[num : num + ns] = temp  # append new time-data
+            _append_to_fdl(fdl, rfft(buff, axis=0))
             spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            yield irfft(spec_sum, axis=0)[num:]
+            # a short last block already holds a part of the tail
+            size = min(num, ns + tail)
+            tail -= size - ns
+            yield irfft(spec_sum, axis=0)[num : num + size]
+
+        # total length is L+M-1 (like numpy convolve w/ mode="full")
+        while tail > 0:
             buff = concatenate(
                 [buff[num:], zeros([num, N])],
                 axis=0,
             )  # shift input buffer to the left
-
-        _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-        spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-        # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
-        yield irfft(spec_sum, axis=0)[num : last_size + num]
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+            size = min(num, tail)
+            tail -= size
+            yield irfft(spec_sum, axis=0)[num : num + size]
 
 
 @nb.jit(nopython=True, cache=True)
-def _append_to_fdl(fdl, idx, numblocks_kernel, buff):  # pragma: no cover
-    fdl[idx] = buff
-    idx = int(idx + 1 % numblocks_kernel)
+def _append_to_fdl(fdl, buff):  # pragma: no cover
+    # the spectrum of the newest block comes first
+    for i in range(fdl.shape[0] - 1, 0, -1):
+        fdl[i] = fdl[i - 1]
+    fdl[0] = buff
 
 
 @nb.jit(nopython=True, cache=True)
-- 
2.43.0


From af1a2771fd1bf61288a274bf8cd5eb7a609eb392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 44/93] fix: TimeConvolve applies a single kernel to the first
 channel only

---
 acoular/tprocess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index c5c7dfc..80ed044 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -2089,12 +2089,13 @@ def _append_to_fdl(fdl, buff):  # pragma: no cover
 
 @nb.jit(nopython=True, cache=True)
 def _spectral_sum(out, fdl, kb):  # pragma: no cover
-    P, B, N = kb.shape
+    P, B, N = fdl.shape
     for n in range(N):
+        k = n % kb.shape[2]  # a single kernel applies to all channels
         for b in range(B):
             out[b, n] = 0
             for i in range(P):
-                out[b, n] += fdl[i, b, n] * kb[i, b, n]
+                out[b, n] += fdl[i, b, n] * kb[i, b, k]
 
     return out
 
-- 
2.43.0


From fdb0625a5cf2f320f6684b54e1cb5a6b93e93c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 45/93] fix: TimeConvolve.result replaces the kernel and
 thereby changes the digest

---
 acoular/tprocess.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 80ed044..0b5284b 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1991,9 +1991,8 @@ class TimeConvolve(TimeOut):
         return digest(self)
 
     def _validate_kernel(self):
-        # reshape kernel for broadcasting
+        # a one dimensional kernel applies to all channels
         if self.kernel.ndim == 1:
-            self.kernel = self.kernel.reshape([-1, 1])
             return
         # check dimensionality
         if self.kernel.ndim > 2:
@@ -2007,18 +2006,19 @@ class TimeConvolve(TimeOut):
     # compute the rfft of the kernel blockwise
     @cached_property
     def _get__kernel_blocks(self):
-        [L, N] = self.kernel.shape
+        kernel = self.kernel.reshape([-1, 1]) if self.kernel.ndim == 1 else self.kernel
+        [L, N] = kernel.shape
         num = self._block_size
         P = int(ceil(L / num))
         trim = num * (P - 1)
         blocks = zeros([P, num + 1, N], dtype='complex128')
 
         if P > 1:
-            for i, block in enumerate(split(self.kernel[:trim], P - 1, axis=0)):
+            for i, block in enumerate(split(kernel[:trim], P - 1, axis=0)):
                 blocks[i] = rfft(concatenate([block, zeros([num, N])], axis=0), axis=0)
 
         blocks[-1] = rfft(
-            concatenate([self.kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
+            concatenate([kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
             axis=0,
         )
         return blocks
-- 
2.43.0


From eb1193e596f30e46bfdfb3c323ba7f3eb1658e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 46/93] fix: SampleSplitter silently loses blocks of buffers
 with an individual size

The overflow check compared the level with the global buffer_size instead of the size of the buffer.
---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 90fd5a3..3cfd1e5 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -525,7 +525,7 @@ class SampleSplitter(InOut):
 
     def _inspect_buffer_levels(self, inspect_objs):
         for obj in inspect_objs:
-            if len(self.block_buffer[obj]) == self.buffer_size:
+            if len(self.block_buffer[obj]) == self.block_buffer[obj].maxlen:
                 if self.buffer_overflow_treatment[obj] == 'error':
                     self._buffer_overflow = True
                 elif self.buffer_overflow_treatment[obj] == 'warning':
-- 
2.43.0


From 09c55c64b457500c731cad1333c593663b6efc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 47/93] fix: SampleSplitter changes the dictionary of buffers
 while iterating over it

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 3cfd1e5..3036a95 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -544,7 +544,7 @@ class SampleSplitter(InOut):
 
     @on_trait_change('buffer_size')
     def _change_buffer_size(self):  #
-        for obj in self.block_buffer:
+        for obj in list(self.block_buffer):
             self._remove_block_buffer(obj)
             self._create_block_buffer(obj)
 
-- 
2.43.0


From 3ba0d50fa7f94c28f0113640ef380807ee567aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 48/93] fix: SampleSplitter repeats blocks of sources that
 reuse their output buffer

---
 acoular/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 3036a95..d5c5644 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -539,7 +539,8 @@ class SampleSplitter(InOut):
         self._source_generator_exist = True  # indicates full generator
 
     def _fill_block_buffers(self):
-        next_block = next(self._source_generator)
+        # the source may reuse the memory of a block for the next one
+        next_block = next(self._source_generator).copy()
         [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
 
     @on_trait_change('buffer_size')
-- 
2.43.0


From c5f8d7b40b00b67517e111a4d6f50b2d448273c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 49/93] fix: SampleSplitter delivers blocks in different order
 to concurrent consumers

Fetching a block and appending it to all buffers was not atomic, and two threads could both
create the generator of the source.
---
 acoular/process.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index d5c5644..d26b393 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -496,6 +496,12 @@ class SampleSplitter(InOut):
     # Helper Trait holds source generator
     _source_generator = Instance(LockedGenerator)
 
+    # Serialises access of several threads to the source generator and the buffers
+    _buffer_lock = Any(transient=True)
+
+    def __buffer_lock_default(self):
+        return threading.RLock()
+
     def _create_block_buffer(self, obj, buffer_size=None):
         if buffer_size is None:
             buffer_size = self.buffer_size if isinstance(self.buffer_size, int) else self.buffer_size[obj]
@@ -658,19 +664,23 @@ class SampleSplitter(InOut):
         self._assert_obj_registered(calling_obj)
         objs_to_inspect = self._get_objs_to_inspect()
 
-        if not self._source_generator_exist:
-            self._create_source_generator(num)
+        with self._buffer_lock:
+            if not self._source_generator_exist:
+                self._create_source_generator(num)
 
         while not self._buffer_overflow:
             if self.block_buffer[calling_obj]:
                 yield self.block_buffer[calling_obj].pop()
             else:
-                self._inspect_buffer_levels(objs_to_inspect)
-                try:
-                    self._fill_block_buffers()
-                except StopIteration:
-                    self._source_generator_exist = False
-                    return
+                with self._buffer_lock:
+                    # another thread may have filled the buffers in the meantime
+                    if not self.block_buffer[calling_obj]:
+                        self._inspect_buffer_levels(objs_to_inspect)
+                        try:
+                            self._fill_block_buffers()
+                        except StopIteration:
+                            self._source_generator_exist = False
+                            return
         else:
             msg = 'Maximum size of block buffer is reached!'
             raise OSError(msg)
-- 
2.43.0


From e4448081f90cb7e557cea2f2ab324eac334aa835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 50/93] fix: Cache raises UnboundLocalError when its source
 yields no block

---
 acoular/process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index d26b393..53f8816 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -267,6 +267,7 @@ class Cache(InOut):
 
     def _write_data_to_cache(self, num):
         nodename = 'tc_' + self.digest
+        ac = None
         for i, data in enumerate(self.source.result(num)):
             if i == 0:
                 self.h5f.create_extendable_array(nodename, (0, data.shape[1]), data.dtype.name)
@@ -276,7 +277,8 @@ class Cache(InOut):
             self.h5f.append_data(ac, data)
             self.h5f.flush()
             yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if ac is not None:
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     def _get_data_from_cache(self, num):
         nodename = 'tc_' + self.digest
@@ -296,6 +298,7 @@ class Cache(InOut):
             nblocks += 1
             i += num
         self.h5f.remove_data(nodename)
+        ac = None
         for j, data in enumerate(self.source.result(num)):
             if j == 0:
                 self.h5f.create_extendable_array(nodename, (0, data.shape[1]), data.dtype.name)
@@ -306,7 +309,8 @@ class Cache(InOut):
             if j >= nblocks:
                 self.h5f.flush()
                 yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if ac is not None:
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     # result generator: delivers input, possibly from cache
     def result(self, num):
-- 
2.43.0


From 319f51fc593045bcec1280a7ec2a9d340e057bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:03 +0000
Subject: [PATCH 51/93] fix: SamplesBuffer fails when a block is as long as the
 buffer

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 53f8816..7e80968 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -856,7 +856,7 @@ class SamplesBuffer(InOut):
 
     def _write_to_buffer(self, data):
         ns = data.shape[0]
-        self._buffer[0 : (self.length - ns)] = self._buffer[-(self.length - ns) :]
+        self._buffer[:-ns] = self._buffer[ns:]
         self._buffer[-ns:, :] = data.astype(self.dtype)
         self._index -= ns
 
-- 
2.43.0


From e98f581a86a4d1a96c30a157ce6a04f80d4c6d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:03 +0000
Subject: [PATCH 52/93] fix: SamplesBuffer.result changes the configured length
 and thereby the digest

---
 acoular/process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 7e80968..7c4e5b0 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -876,7 +876,6 @@ class SamplesBuffer(InOut):
         ar = np.zeros((num, self.num_channels), dtype=self._buffer.dtype)
         self._buffer = np.concatenate((ar, self._buffer), axis=0)
         self._index += num
-        self.length += num
 
     def read_from_buffer(self, num):
         """
@@ -947,7 +946,7 @@ class SamplesBuffer(InOut):
         while not self._empty_source:
             while self._index >= snum:
                 if self.result_num is not None:
-                    while self.result_num > self.length:
+                    while self.result_num > self._buffer.shape[0]:
                         self.increase_buffer(snum)
                 try:
                     self._write_to_buffer(next(source_generator))
-- 
2.43.0


From 07c31f316b30248c4e7c7ba9ae2b630c49822f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 53/93] fix: CrossPowerSpectra fails for the calculation modes
 'upper' and 'lower'

---
 acoular/fprocess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 08c859a..e8e9b8c 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -434,6 +434,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
         nf = self.num_freqs
         scale = self._get_scaling_value()
 
+        upper, lower = np.triu_indices(nc_src), np.tril_indices(nc_src)
         csm_flat = np.zeros((num, nc * nf), dtype=self.precision)
         csm_upper = np.zeros((nf, nc_src, nc_src), dtype=self.precision)
         for data in self.source.result(num):
@@ -444,10 +445,10 @@ class CrossPowerSpectra(AutoPowerSpectra):
                     [np.fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
                     csm_flat[i] = (csm_lower + csm_upper).reshape(-1)
                 elif self.calc_mode == 'upper':
-                    csm_flat[i] = csm_upper[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_upper[:, upper[0], upper[1]].reshape(-1)
                 else:  # lower
                     csm_lower = csm_upper.conj().transpose(0, 2, 1)
-                    csm_flat[i] = csm_lower[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_lower[:, lower[0], lower[1]].reshape(-1)
                 csm_upper[...] = 0  # calcCSM adds cumulative
             yield csm_flat[: i + 1] * scale
 
-- 
2.43.0


From 05440d164f8251bf285413c98d5ae81f5b3a3559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 54/93] fix: SpatialInterpolatorRotation calls the property
 angle

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 0b5284b..5af157d 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1205,7 +1205,7 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
         # period for rotation
         period = 2 * pi
         # get angle
-        angle = self.angle_source.angle()
+        angle = self.angle_source.angle
         # counter to track angle position in time for each block
         count = 0
         for timeData in self.source.result(num):
-- 
2.43.0


From 2f046bbc30cf8a0e0f5f7c948cdb93f6902658a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 55/93] fix: PointSpreadFunction leaves columns zero in
 calculation modes 'single' and 'block'

The bitwise complement of the int8 flags was used as index array instead of a mask.
---
 acoular/fbeamform.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 846cb42..2afb70c 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -58,7 +58,6 @@ from numpy import (
     index_exp,
     inf,
     integer,
-    invert,
     isscalar,
     log10,
     ndarray,
@@ -1089,12 +1088,8 @@ class PointSpreadFunction(HasStrictTraits):
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
         if self.calcmode != 'full':
-            # calc_ind has the form [True, True, False, True], except
-            # when it has only 1 entry (value True/1 would be ambiguous)
-            calc_ind = [0] if self.grid_indices.size == 1 else invert(gp[:][self.grid_indices])
-
-            # get indices which have the value True = not yet calculated
-            g_ind_calc = self.grid_indices[calc_ind]
+            # get indices which are not yet calculated
+            g_ind_calc = self.grid_indices[gp[:][self.grid_indices] == 0]
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
-- 
2.43.0


From 5bc0d5eac8250552032e6b7991858ed00d1bf545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 56/93] fix: PointSpreadFunction marks cached columns as valid
 before they are computed

---
 acoular/fbeamform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 2afb70c..c01aaac 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1096,14 +1096,13 @@ class PointSpreadFunction(HasStrictTraits):
                 ac[:, ind] = self._psf_call([ind])[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
-            gp[:] = 1
             ac[:] = self._psf_call(arange(self.steer.grid.size))
+            gp[:] = 1
         else:  # 'block' # calculate selected psfs in one go
             hh = self._psf_call(g_ind_calc)
             for indh, ind in enumerate(g_ind_calc):
-                gp[ind] = 1
                 ac[:, ind] = hh[:, indh]
-                indh += 1
+                gp[ind] = 1
 
     def _psf_call(self, ind):
         """Manages the calling of the core psf functionality.
-- 
2.43.0


From 0dda0434869ec76db12d7511909f096d14184d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 57/93] fix: PointSpreadFunction.psf keeps the grid point
 selection of a former grid

---
 acoular/fbeamform.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index c01aaac..4251f8b 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1046,20 +1046,23 @@ class PointSpreadFunction(HasStrictTraits):
         gp = self.h5f.get_data_by_reference('gridpts', '/' + nodename)
         return (ac, gp)
 
+    def _indices(self):
+        # all grid points if none are selected
+        return self.grid_indices if self.grid_indices.size else arange(self.steer.grid.size)
+
     def _get_psf(self):
         """Implements the :attr:`psf` getter routine.
         The point spread function is either loaded or calculated.
         """
         gs = self.steer.grid.size
-        if not self.grid_indices.size:
-            self.grid_indices = arange(gs)
+        grid_indices = self._indices()
 
         if config.global_caching != 'none':
             #            print("get filecache..")
             (ac, gp) = self._get_filecache()
             if ac and gp:
                 #                print("cached data existent")
-                if not gp[:][self.grid_indices].all():
+                if not gp[:][grid_indices].all():
                     #                    print("calculate missing results")
                     if self.calcmode == 'readonly':
                         msg = "Cannot calculate missing PSF (points) in 'readonly' mode."
@@ -1067,13 +1070,13 @@ class PointSpreadFunction(HasStrictTraits):
                     if config.global_caching == 'readonly':
                         (ac, gp) = (ac[:], gp[:])
                         self.calc_psf(ac, gp)
-                        return ac[:, self.grid_indices]
+                        return ac[:, grid_indices]
                     self.calc_psf(ac, gp)
                     self.h5f.flush()
-                    return ac[:, self.grid_indices]
+                    return ac[:, grid_indices]
                 #                else:
                 #                    print("cached results are complete! return.")
-                return ac[:, self.grid_indices]
+                return ac[:, grid_indices]
             #           print("no caching, calculate result")
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
@@ -1083,13 +1086,14 @@ class PointSpreadFunction(HasStrictTraits):
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
             self.calc_psf(ac, gp)
-        return ac[:, self.grid_indices]
+        return ac[:, grid_indices]
 
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
         if self.calcmode != 'full':
             # get indices which are not yet calculated
-            g_ind_calc = self.grid_indices[gp[:][self.grid_indices] == 0]
+            grid_indices = self._indices()
+            g_ind_calc = grid_indices[gp[:][grid_indices] == 0]
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
-- 
2.43.0


From 37e1b4d125b64b2e4279508c9a98bd368fa9e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 58/93] fix: PointSpreadFunction shares cached results between
 similar frequencies

The node in the cache file was named after the frequency rounded to two digits.
---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 4251f8b..35e7eba 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1018,7 +1018,7 @@ class PointSpreadFunction(HasStrictTraits):
         exist and global caching mode is 'readonly'.
         """
         filename = 'psf' + self.digest
-        nodename = (f'Hz_{self.freq:.2f}').replace('.', '_')
+        nodename = (f'Hz_{self.freq!r}').replace('.', '_')
         #        print("get cachefile:", filename)
         H5cache.get_cache_file(self, filename)
         if not self.h5f:  # only happens in case of global caching readonly
-- 
2.43.0


From 047e1502d92ab59dce669bc9e935cb3f165858d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 59/93] fix: BeamformerGIB method InverseIRLS fails for more
 channels than grid points

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 35e7eba..d91069a 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2241,7 +2241,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
                                 weights = weights / sum(absolute(weights))
                             elif num_channels > num_points:
                                 wtw = dot(weights.T, weights)
-                                qi[s, :] = dot(dot(inv(dot(dot(A.conj.T, wtw), A)), dot(A.conj().T, wtw)), emode)
+                                qi[s, :] = dot(dot(inv(dot(dot(A.conj().T, wtw), A)), dot(A.conj().T, wtw)), emode)
                                 weights = diag(absolute(qi[s, :]) ** ((2 - self.pnorm) / 2))
                                 weights = weights / sum(absolute(weights))
                     else:
-- 
2.43.0


From 372ca222bb088cd08bdc31681531904c7e50160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 60/93] fix: BeamformerOrth adds to the cached rows of an
 interrupted calculation

---
 acoular/fbeamform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index d91069a..1613c0c 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1440,6 +1440,8 @@ class BeamformerOrth(BeamformerBase):
         for i in ind:
             eva = array(self.freq_data.eva[i], dtype='float64')
             eve = array(self.freq_data.eve[i], dtype='complex128')
+            # the row may already hold a part of the result of an interrupted calculation
+            h = zeros(self.steer.grid.size)
             for n in self.eva_list:
                 beamformerOutput = beamformerFreq(
                     param_steer_type,
@@ -1448,7 +1450,8 @@ class BeamformerOrth(BeamformerBase):
                     steer_vector(f[i]),
                     (ones(1), eve[:, n].reshape((-1, 1))),
                 )[0]
-                self._ac[i, beamformerOutput.argmax()] += eva[n] / num_channels
+                h[beamformerOutput.argmax()] += eva[n] / num_channels
+            self._ac[i] = h
             self._fr[i] = 1
 
 
-- 
2.43.0


From 99ce690b22139fe342b729356273917a5e7759cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 61/93] fix: integrate raises UnboundLocalError for data that
 does not fit the grid

---
 acoular/fbeamform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 1613c0c..d3a6c70 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2553,4 +2553,7 @@ def integrate(data, grid, sector):
         h = zeros(data.shape[0])
         for i in range(data.shape[0]):
             h[i] = data[i].reshape(gshape)[ind].sum()
+    else:
+        msg = f'Data of shape {data.shape} does not fit a grid with {gsize} points.'
+        raise ValueError(msg)
     return h
-- 
2.43.0


From b2851f583b80432e4f2622e02a4c17c2f3a5db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 62/93] fix: KeyError when an object switches to another cache
 file

The reference counter is keyed by path, but was decreased for the file name string. The cache
remained busy afterwards and blocked all further requests.
---
 acoular/h5cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index c073543..dd3385f 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -95,7 +95,7 @@ class HDF5Cache(HasStrictTraits):
             if Path(obj.h5f.filename).resolve() == filename:
                 self.busy = False
                 return
-            self._decrease_file_reference_counter(obj.h5f.filename)
+            self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
 
         if filename not in self.open_files:  # or tables.file._open_files.filenames
             if config.global_caching == 'readonly':
-- 
2.43.0


From 342c1331e47aa7ffdbaa588af3add503a0689e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 63/93] fix: a failing request leaves the cache busy and blocks
 all further requests

The busy flag was not reset on exceptions, and testing and setting it was not atomic.
---
 acoular/h5cache.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index dd3385f..e48e420 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -5,9 +5,10 @@
 # imports from other packages
 import gc
 from pathlib import Path
+from threading import RLock
 from weakref import WeakValueDictionary
 
-from traits.api import Bool, Delegate, Dict, HasStrictTraits, Instance
+from traits.api import Any, Bool, Delegate, Dict, HasStrictTraits, Instance
 
 from .configuration import Config, config
 from .h5files import _get_cachefile_class
@@ -26,9 +27,11 @@ class HDF5Cache(HasStrictTraits):
 
     open_file_reference = Dict(key_trait=Path, value_trait=int)
 
-    def _idle_if_busy(self):
-        while self.busy:
-            pass
+    # serialises the requests of several threads
+    _lock = Any(transient=True)
+
+    def __lock_default(self):
+        return RLock()
 
     def close_cachefile(self, cachefile):
         self.open_file_reference.pop(Path(cachefile.filename))
@@ -81,20 +84,26 @@ class HDF5Cache(HasStrictTraits):
 
     def get_cache_file(self, obj, basename, mode='a'):
         """Returns pytables .h5 file to h5f trait of calling object for caching."""
-        self._idle_if_busy()  #
-        self.busy = True
+        with self._lock:
+            self.busy = True
+            try:
+                changed = self._assign_cache_file(obj, basename, mode)
+            finally:
+                self.busy = False
+            if changed:
+                self._print_open_files()
+
+    def _assign_cache_file(self, obj, basename, mode):
         file_cls = _get_cachefile_class()
         filename = (Path(self.cache_dir) / (basename + '_cache.h5')).resolve()
 
         if config.global_caching == 'readonly' and not filename.exists():
             obj.h5f = None
-            self.busy = False
-            return  # cachefile is not created in readonly mode
+            return False  # cachefile is not created in readonly mode
 
         if isinstance(obj.h5f, file_cls):
             if Path(obj.h5f.filename).resolve() == filename:
-                self.busy = False
-                return
+                return False
             self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
 
         if filename not in self.open_files:  # or tables.file._open_files.filenames
@@ -108,9 +117,7 @@ class HDF5Cache(HasStrictTraits):
 
         # garbage collection
         self.close_unreferenced_cachefiles()
-
-        self.busy = False
-        self._print_open_files()
+        return True
 
 
 H5cache = HDF5Cache(config=config)
-- 
2.43.0


From 4e9c014bca3dfdf70c7f394dd877b2022ab37ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 64/93] fix: dipole and line sources yield an empty last block

This happens when the number of samples is a multiple of the block size, and a SamplesBuffer cannot
handle empty blocks.
---
 acoular/sources.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 94e9566..0873657 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1349,7 +1349,8 @@ class PointSourceDipole(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
@@ -1579,7 +1580,8 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class LineSource(PointSource):
@@ -1711,7 +1713,8 @@ class LineSource(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingLineSource(LineSource, MovingPointSource):
@@ -1958,7 +1961,8 @@ class MovingLineSource(LineSource, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 @deprecated_alias({'numchannels': 'num_channels'}, read_only=True)
-- 
2.43.0


From 815841f1dffbefd95c5613c54693c9e001378617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 65/93] fix: line sources change rms and seed of their signal,
 with process dependent seeds

rms accumulated the source strengths over the sources and calls of result, the seeds were derived
from the salted hash of a string.
---
 acoular/sources.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0873657..9010f50 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1685,16 +1685,18 @@ class LineSource(PointSource):
         # distances from monopoles in the line to microphones
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
-        signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
+        # seed and rms are chosen for every source, the signal itself remains as it is
+        signal = self.signal.clone_traits()
+        signals = empty((self.num_sources, len(signal.usignal(self.up))))
         # for every source - distances
         for s in range(self.num_sources):
             rms[:, s] = self.env._r((loc.T + direc_n * dist * s).T, mpos)
             inds[:, s] = (-rms[:, s] / c - self.start_t + self.start) * self.sample_freq
             # new seed for every source
             if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+                signal.seed = s + int(self.digest[1:6], 16)
+            signal.rms = self.signal.rms * self.source_strength[s]
+            signals[s] = signal.usignal(self.up)
         i = 0
         n = self.num_samples
         while n:
@@ -1915,14 +1917,16 @@ class MovingLineSource(LineSource, MovingPointSource):
         # distances from monopoles in the line to microphones
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
-        signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
+        # seed and rms are chosen for every source, the signal itself remains as it is
+        signal = self.signal.clone_traits()
+        signals = empty((self.num_sources, len(signal.usignal(self.up))))
         # coherence
         for s in range(self.num_sources):
             # new seed for every source
             if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+                signal.seed = s + int(self.digest[1:6], 16)
+            signal.rms = self.signal.rms * self.source_strength[s]
+            signals[s] = signal.usignal(self.up)
         mpos = self.mics.pos
 
         # shortcuts and initial values
-- 
2.43.0


From 2d67352f9c7b7f795dd1002962260e97179a6826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 66/93] fix: MetricEvaluator sets the evaluated data to zero
 inside of the sectors

---
 acoular/tools/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tools/metrics.py b/acoular/tools/metrics.py
index 0484833..605000e 100644
--- a/acoular/tools/metrics.py
+++ b/acoular/tools/metrics.py
@@ -117,7 +117,7 @@ class MetricEvaluator(HasStrictTraits):
         sectors = self.sectors
         results = empty(shape=self.target_data.shape)
         for f in range(self.target_data.shape[0]):
-            data = self.data[f]
+            data = self.data[f].copy()  # sectors are zeroed below
             for i in range(self.target_data.shape[1]):
                 sector = sectors[i]
                 results[f, i] = integrate(data, self.grid, sector)
-- 
2.43.0


From 7ce8ab40169e2831c73e5decdb8d2ed91737d62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 67/93] fix: WriteWAV.save fails with numpy 2, tostring was
 removed

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 5af157d..0a89cf3 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1845,7 +1845,7 @@ class WriteWAV(TimeOut):
                 mx = max(abs(data[:, ind]).max(), mx)
             scale = 0.9 * 2**15 / mx
             for data in self.source.result(1024):
-                wf.writeframesraw(array(data[:, ind] * scale, dtype=int16).tostring())
+                wf.writeframesraw(array(data[:, ind] * scale, dtype=int16).tobytes())
 
     def result(self, num):
         msg = 'result method not implemented yet! Data from source will be passed without transformation.'
-- 
2.43.0


From 5894db16d13d0c73ea805650ed140ffe90495a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 68/93] fix: WriteH5 leaves its file open when the source fails
 or the consumer stops early

---
 acoular/tprocess.py | 66 +++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 0a89cf3..d7e1f45 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1894,19 +1894,25 @@ class WriteH5(TimeOut):
         file = _get_h5file_class()
         self.create_filename()
         f5h = file(self.file, mode='w')
-        f5h.create_extendable_array('time_data', (0, self.num_channels), self.precision)
-        ac = f5h.get_data_by_reference('time_data')
-        f5h.set_node_attribute(ac, 'sample_freq', self.sample_freq)
-        self.add_metadata(f5h)
+        try:
+            f5h.create_extendable_array('time_data', (0, self.num_channels), self.precision)
+            ac = f5h.get_data_by_reference('time_data')
+            f5h.set_node_attribute(ac, 'sample_freq', self.sample_freq)
+            self.add_metadata(f5h)
+        except BaseException:
+            f5h.close()
+            raise
         return f5h
 
     def save(self):
         """Saves source output to `*.h5` file."""
         f5h = self.get_initialized_file()
-        ac = f5h.get_data_by_reference('time_data')
-        for data in self.source.result(4096):
-            f5h.append_data(ac, data)
-        f5h.close()
+        try:
+            ac = f5h.get_data_by_reference('time_data')
+            for data in self.source.result(4096):
+                f5h.append_data(ac, data)
+        finally:
+            f5h.close()
 
     def add_metadata(self, f5h):
         """Adds metadata to .h5 file."""
@@ -1939,27 +1945,29 @@ class WriteH5(TimeOut):
         """
         self.write_flag = True
         f5h = self.get_initialized_file()
-        ac = f5h.get_data_by_reference('time_data')
-        scount = 0
-        stotal = self.num_samples_write
-        source_gen = self.source.result(num)
-        while self.write_flag:
-            sleft = stotal - scount
-            if stotal != -1 and sleft > 0:
-                anz = min(num, sleft)
-            elif stotal == -1:
-                anz = num
-            else:
-                break
-            try:
-                data = next(source_gen)
-            except StopIteration:
-                break
-            f5h.append_data(ac, data[:anz])
-            f5h.flush()
-            yield data
-            scount += anz
-        f5h.close()
+        try:
+            ac = f5h.get_data_by_reference('time_data')
+            scount = 0
+            stotal = self.num_samples_write
+            source_gen = self.source.result(num)
+            while self.write_flag:
+                sleft = stotal - scount
+                if stotal != -1 and sleft > 0:
+                    anz = min(num, sleft)
+                elif stotal == -1:
+                    anz = num
+                else:
+                    break
+                try:
+                    data = next(source_gen)
+                except StopIteration:
+                    break
+                f5h.append_data(ac, data[:anz])
+                f5h.flush()
+                yield data
+                scount += anz
+        finally:
+            f5h.close()
 
 
 class TimeConvolve(TimeOut):
-- 
2.43.0


From 7c50caac728cb34a0d7b86c934084e0083b315e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 69/93] fix: MicAIAABenchmark leaves files open that contain no
 microphone positions

---
 acoular/aiaa/aiaa.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index 0abbbf7..ff13dba 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -176,5 +176,9 @@ class MicAIAABenchmark(MicGeom):
         """
         file = _get_h5file_class()
         h5f = file(self.file, mode='r')
-        self.pos_total = h5f.get_data_by_reference('MetaData/ArrayAttributes/microphonePositionsM')[:].swapaxes(0, 1)
-        h5f.close()
+        try:
+            self.pos_total = h5f.get_data_by_reference('MetaData/ArrayAttributes/microphonePositionsM')[:].swapaxes(
+                0, 1
+            )
+        finally:
+            h5f.close()
-- 
2.43.0


From e22b92f42cbb9080af291b944ec029bf4bb22af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 70/93] fix: CsmAIAABenchmark digest does not tell apart files
 with equal names

---
 acoular/aiaa/aiaa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index ff13dba..7a69fe8 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -104,7 +104,7 @@ class CsmAIAABenchmark(PowerSpectraImport):
     h5f = Instance(H5FileBase, transient=True)
 
     # internal identifier
-    digest = Property(depends_on=['basename', 'precision'])
+    digest = Property(depends_on=['basename', 'file', 'precision'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 40457ed58eeb19ef7bb7cb9712860b06e1cb9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 71/93] fix: PowerSpectra writes to the cache file in readonly
 mode

---
 acoular/spectra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index d471611..7a32861 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -524,6 +524,8 @@ class PowerSpectra(BaseSpectra):
 
         ac = self.h5f.get_data_by_reference(nodename)
         if ac[:].sum() == 0:  # only initialized
+            if config.global_caching == 'readonly':
+                return func()
             #            print("write {} to:".format(traitname),nodename)
             ac[:] = func()
             self.h5f.flush()
-- 
2.43.0


From 81310465089e3e2b133240c2e013e7663bdcf888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 72/93] fix: BeamformerGIB raises UnboundLocalError when no
 eigenvalue is positive

---
 acoular/fbeamform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index d3a6c70..055b246 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2187,6 +2187,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
             eva[eva < max(eva) / 1e12] = 0
             # init sources
             qi = zeros([n + m, num_points], dtype='complex128')
+            locpoints = arange(num_points)
             # Select the number of coherent modes to be processed referring to the eigenvalue
             # distribution.
             for s in list(range(m, n + m)):
-- 
2.43.0


From a3a0e8a7da90b3e037af70fbcd27bb9a6376e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 73/93] fix: BeamformerGIB truncates the regularisation
 parameter to an integer

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 055b246..b8fbf22 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2199,7 +2199,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
                         leftpoints = num_points
                         locpoints = arange(num_points)
                         weights = diag(ones(num_points))
-                        epsilon = arange(self.n_iter)
+                        epsilon = zeros(self.n_iter)
                         for it in arange(self.n_iter):
                             if num_channels <= leftpoints:
                                 AWA = dot(dot(A[:, locpoints], weights), A[:, locpoints].conj().T)
-- 
2.43.0


From 3e3282131178601d082caeb5571b932b00505f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 74/93] fix: RFFT yields a spectrum for a source without any
 data

---
 acoular/fprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index e8e9b8c..ed4c7de 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -157,7 +157,7 @@ class RFFT(BaseSpectra, SpectraOut):
             svalue = 1 / wind.sum()
         wind = wind[:, np.newaxis]
         fftdata = np.zeros((num, self.num_channels * self.num_freqs), dtype=self.precision)
-        j = 0
+        j = -1
         for i, data in enumerate(self._get_source_data()):  # yields one block of time data
             j = i % num
             fftdata[j] = self._scale(
@@ -166,7 +166,7 @@ class RFFT(BaseSpectra, SpectraOut):
             ).reshape(-1)
             if j == num - 1:
                 yield fftdata
-        if j < num - 1:  # yield remaining fft spectra
+        if 0 <= j < num - 1:  # yield remaining fft spectra
             yield fftdata[: j + 1]
 
 
-- 
2.43.0


From a554d22fc76106137de426ed79ca17166bbd71c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 75/93] fix: SpatialInterpolator uses the deprecated attribute
 mpos

---
 acoular/tprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index d7e1f45..92a65dc 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -760,11 +760,11 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
 
     @cached_property
     def _get_virtNewCoord(self):  # noqa N802
-        return self._virtNewCoord_func(self.mics.mpos, self.mics_virtual.mpos, self.method, self.array_dimension)
+        return self._virtNewCoord_func(self.mics.pos, self.mics_virtual.pos, self.method, self.array_dimension)
 
     def sinc_mic(self, r):
         """Modified Sinc function for Radial Basis function approximation."""
-        return sinc((r * self.mics_virtual.mpos.shape[1]) / (pi))
+        return sinc((r * self.mics_virtual.pos.shape[1]) / (pi))
 
     def _virtNewCoord_func(self, mpos, mpos_virt, method, array_dimension):  # noqa N802
         """Core functionality for getting the interpolation.
@@ -936,7 +936,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
         # number of time samples
         nTime = p.shape[0]
         # number of virtual mixcs
-        nVirtMics = self.mics_virtual.mpos.shape[1]
+        nVirtMics = self.mics_virtual.pos.shape[1]
         # mesh and projection onto polar Coordinates
         meshList, virtNewCoord, newCoord = self.virtNewCoord
         # pressure interpolation init
-- 
2.43.0


From a4a183271f910a37c7f73da118a13aeb32387cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 76/93] fix: MergeGrid digest contains the memory addresses of
 its grids

---
 acoular/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 78ae40b..ee40b35 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1050,7 +1050,7 @@ class MergeGrid(Grid):
     subgrids = Property(desc='names of subgrids for each point')
 
     #: A unique identifier for the grid, based on its properties. (read-only)
-    digest = Property(depends_on=['grids', 'grid_digest'])
+    digest = Property(depends_on=['grid_digest'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 4c1ee2a5fff96cc0edf2c495a5257636abc11168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:00 +0000
Subject: [PATCH 77/93] fix: GenericSignalGenerator raises UnboundLocalError
 for a source without data

---
 acoular/signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/signals.py b/acoular/signals.py
index cc05832..95782fa 100644
--- a/acoular/signals.py
+++ b/acoular/signals.py
@@ -649,6 +649,7 @@ class GenericSignalGenerator(SignalGenerator):
             )
         nums = self.num_samples
         track = zeros(nums)
+        stop = 0
 
         # iterate through source generator to fill signal track
         for i, temp in enumerate(self.source.result(block)):
@@ -661,7 +662,7 @@ class GenericSignalGenerator(SignalGenerator):
                 break
 
         # if the signal should be repeated after finishing and there are still samples open
-        if self.loop_signal and (nums > stop):
+        if self.loop_signal and (nums > stop > 0):
             # fill up empty track with as many full source signals as possible
             nloops = nums // stop
             if nloops > 1:
-- 
2.43.0


From db2f0e1bb6826ad1db5cb60b58c1a84e0992de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:03 +0000
Subject: [PATCH 78/93] fix: Trigger compares with a block of the source that
 is no longer valid

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 92a65dc..757b2f4 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -416,7 +416,7 @@ class Trigger(TimeOut):  # pragma: no cover
                 peakLoc = append(peakLoc, localTrigger + dSamples)
                 trigger_data = append(trigger_data, triggerSignal[localTrigger])
             dSamples += num
-            x0 = triggerSignal[-1]
+            x0 = triggerSignal[-1].copy()
         if len(peakLoc) <= 1:
             msg = 'Not enough trigger info. Check *threshold* sign and value!'
             raise Exception(msg)
-- 
2.43.0


From 12f0f5089ae811ee6f71ed1310114e09ccc52300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:30 +0000
Subject: [PATCH 79/93] fix: Trigger warning needs an attribute start that most
 sources do not have

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 757b2f4..e580c56 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -449,7 +449,7 @@ class Trigger(TimeOut):  # pragma: no cover
         if faultyInd.size != 0:
             warn(
                 f'In Trigger-Identification: The distances between the peaks (and therefore the lengths of the \
-                revolutions) vary too much (check samples {peakLoc[faultyInd] + self.source.start}).',
+                revolutions) vary too much (check samples {peakLoc[faultyInd] + getattr(self.source, "start", 0)}).',
                 Warning,
                 stacklevel=2,
             )
-- 
2.43.0


From 621b45482517344277ba31f7cc6ae2bd1a45ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:12 +0000
Subject: [PATCH 80/93] fix: SpatialInterpolator keeps a former mics as default
 of mics_virtual

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e580c56..2419720 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -682,7 +682,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
 
     def _get_mics_virtual(self):
         if not self._mics_virtual and self.mics:
-            self._mics_virtual = self.mics
+            return self.mics
         return self._mics_virtual
 
     def _set_mics_virtual(self, mics_virtual):
-- 
2.43.0


From 97b52f77c5cac9b399dfd6550a1e7edb70f78033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 81/93] fix: digests of equal numpy and python numbers differ

---
 acoular/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/internal.py b/acoular/internal.py
index 743e3f8..4df8114 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -7,7 +7,7 @@ from hashlib import md5
 
 def _token(value):
     # arrays contribute their full content: str() abbreviates large arrays and rounds values
-    if hasattr(value, 'tobytes') and not getattr(value.dtype, 'hasobject', True):
+    if hasattr(value, 'tobytes') and value.ndim and not value.dtype.hasobject:
         raw = f'{value.dtype}{value.shape}'.encode() + value.tobytes()
     else:
         raw = str(value).encode('UTF-8')
-- 
2.43.0


From 1d47824e3b3ef39eccec861d75d2fceb3812766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:23 +0000
Subject: [PATCH 82/93] fix: integrate with frange before any result returns
 empty arrays

---
 acoular/fbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index b8fbf22..2c556be 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -659,6 +659,8 @@ class BeamformerBase(HasStrictTraits):
                 msg,
             )
         gshape = self.steer.grid.shape
+        # make sure that the frequency data is that of the current result
+        res = self.result
         if num == 0 or frange is None:
             if frange is None:
                 ind_low = self.freq_data.ind_low
@@ -682,7 +684,7 @@ class BeamformerBase(HasStrictTraits):
                 )
             h = zeros(self._numfreq, dtype=float)
             sl = slice(*irange)
-            r = self.result[sl]
+            r = res[sl]
             for i in range(*irange):
                 # we do this per frequency because r might not have fancy indexing
                 h[i] = r[i - sl.start].reshape(gshape)[ind].sum()
-- 
2.43.0


From cba231e97e15c5a4cc1663830202646a166571b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:23 +0000
Subject: [PATCH 83/93] fix: integrate over an adaptive grid before any result
 fails

---
 acoular/fbeamform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 2c556be..98b55d9 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2332,8 +2332,9 @@ class BeamformerAdaptiveGrid(BeamformerBase, Grid):
                 msg,
             )
 
-        ind = self.subdomain(sector)
+        # the positions are only known once the result is
         r = self.result[:]
+        ind = self.subdomain(sector)
         h = zeros(r.shape[0])
         for i in range(r.shape[0]):
             h[i] = r[i][ind].sum()
-- 
2.43.0


From 4a17ee1a245cebfed252d0895495909b6437b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:43 +0000
Subject: [PATCH 84/93] fix: unimplemented spatial interpolation methods
 silently give zeros

---
 acoular/tprocess.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 2419720..36bb9f3 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1016,6 +1016,10 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
 
+                else:
+                    msg = f'Method {self.method} is not implemented for array dimension {self.array_dimension}.'
+                    raise NotImplementedError(msg)
+
         # Interpolation for arbitrary 2D Arrays
         elif self.array_dimension == '2D':
             # check rotation
@@ -1094,6 +1098,9 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                             wholeD = sum(1 / normNew**self.p_weight)
                             weight = (1 / normNew**self.p_weight) / wholeD
                             pInterp[cntTime, ind] = sum(pHelpNew * weight)
+                else:
+                    msg = f'Method {self.method} is not implemented for array dimension {self.array_dimension}.'
+                    raise NotImplementedError(msg)
 
         # Interpolation for arbitrary 3D Arrays
         elif self.array_dimension == '3D':
@@ -1149,6 +1156,14 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
 
+                else:
+                    msg = f'Method {self.method} is not implemented for array dimension {self.array_dimension}.'
+                    raise NotImplementedError(msg)
+
+        else:
+            msg = f'Method {self.method} is not implemented for array dimension {self.array_dimension}.'
+            raise NotImplementedError(msg)
+
         # return interpolated pressure values
         return pInterp
 
-- 
2.43.0


From f756d6f3381ab988a4cca2d76b1cd58d625bb729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:11 +0000
Subject: [PATCH 85/93] fix: sound device source stays marked as running when
 its generator is closed

---
 acoular/sdinput.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/acoular/sdinput.py b/acoular/sdinput.py
index 030cd59..e83058c 100644
--- a/acoular/sdinput.py
+++ b/acoular/sdinput.py
@@ -120,17 +120,19 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
 
         with stream_obj as stream:
             self.running = True
-            if self.num_samples == -1:
-                while self.collect_samples:  # yield data as long as collect_samples is True
-                    data, self.overflow = stream.read(num)
-                    yield data[:num]
-
-            elif self.num_samples > 0:  # amount of samples to collect is specified by user
-                samples_count = 0  # num_samples counter
-                while samples_count < self.num_samples:
-                    anz = min(num, self.num_samples - samples_count)
-                    data, self.overflow = stream.read(num)
-                    yield data[:anz]
-                    samples_count += anz
-        self.running = False
+            try:
+                if self.num_samples == -1:
+                    while self.collect_samples:  # yield data as long as collect_samples is True
+                        data, self.overflow = stream.read(num)
+                        yield data[:num]
+
+                elif self.num_samples > 0:  # amount of samples to collect is specified by user
+                    samples_count = 0  # num_samples counter
+                    while samples_count < self.num_samples:
+                        anz = min(num, self.num_samples - samples_count)
+                        data, self.overflow = stream.read(num)
+                        yield data[:anz]
+                        samples_count += anz
+            finally:
+                self.running = False
         return
-- 
2.43.0


From 3cbcacc8164c40af986ddf8a6abefdca1c77de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:36 +0000
Subject: [PATCH 86/93] fix: references to cache files are counted wrongly
 after a change of policy or library

---
 acoular/h5cache.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index e48e420..d9bc21d 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -98,13 +98,13 @@ class HDF5Cache(HasStrictTraits):
         filename = (Path(self.cache_dir) / (basename + '_cache.h5')).resolve()
 
         if config.global_caching == 'readonly' and not filename.exists():
+            self._forget_cache_file(obj)
             obj.h5f = None
             return False  # cachefile is not created in readonly mode
 
-        if isinstance(obj.h5f, file_cls):
-            if Path(obj.h5f.filename).resolve() == filename:
-                return False
-            self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
+        if isinstance(obj.h5f, file_cls) and Path(obj.h5f.filename).resolve() == filename:
+            return False
+        self._forget_cache_file(obj)
 
         if filename not in self.open_files:  # or tables.file._open_files.filenames
             if config.global_caching == 'readonly':
@@ -119,5 +119,10 @@ class HDF5Cache(HasStrictTraits):
         self.close_unreferenced_cachefiles()
         return True
 
+    def _forget_cache_file(self, obj):
+        """Remove the reference of an object to the file it holds from the reference counter."""
+        if obj.h5f is not None:
+            self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
+
 
 H5cache = HDF5Cache(config=config)
-- 
2.43.0


From 50bae7bacd44201a91b1e84ed6671d25e5744622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:42 +0000
Subject: [PATCH 87/93] fix: MaskedTimeOut drops the last samples if its source
 ends early

---
 acoular/tprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 36bb9f3..273f5d0 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -252,6 +252,9 @@ class MaskedTimeOut(TimeOut):
                     yield buf[:num]
                     buf[: bsize - num, :] = buf[num:bsize, :]
                     bsize -= num
+            else:  # the source ended before all of its samples were delivered
+                if bsize > 0:
+                    yield buf[:bsize, :]
 
         else:  # if no start/stop given, don't do the resorting thing
             for block in self.source.result(num):
-- 
2.43.0


From 09f54a847967a6a2a8a2f2c2ab3771daea853829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:36 +0000
Subject: [PATCH 88/93] fix: convective amplification of a moving line source
 only applied to its last monopole

---
 acoular/sources.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 9010f50..6e9b7a1 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1948,10 +1948,9 @@ class MovingLineSource(LineSource, MovingPointSource):
                 diff = self.get_moving_direction(dir2, te)
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
                 inds[:, s] = (te - self.start_t + self.start) * self.sample_freq
+                if self.conv_amp:
+                    rms[:, s] *= (1 - Mr) ** 2
 
-            if self.conv_amp:
-                rm *= (1 - Mr) ** 2
-                rms[:, s] *= (1 - Mr) ** 2  # assume that Mr is the same
             try:
                 # subtract the second signal b/c of phase inversion
                 for s in range(self.num_sources):
-- 
2.43.0


From 6f7e06bcba17e38ec56837b056612b016562149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:22 +0000
Subject: [PATCH 89/93] fix: rejected frequency range partly changes
 PowerSpectra

---
 acoular/spectra.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 7a32861..b2a94c9 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -296,9 +296,12 @@ class PowerSpectra(BaseSpectra):
         return None
 
     def _set_freq_range(self, freq_range):  # by setting this the user sets _freqlc and _freqhc
+        # a range that is not accepted leaves everything as it is
+        freqlc = self.validate_trait('_freqlc', freq_range[0])
+        freqhc = self.validate_trait('_freqhc', freq_range[1])
         self._index_set_last = False
-        self._freqlc = freq_range[0]
-        self._freqhc = freq_range[1]
+        self._freqlc = freqlc
+        self._freqhc = freqhc
 
     @property_depends_on(['source.sample_freq', 'digest', '_ind_low', '_freqlc', '_index_set_last'])
     def _get_ind_low(self):
-- 
2.43.0


From ef2b06262f02a46264ba0e6ec3082c35510369de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:02 +0000
Subject: [PATCH 90/93] fix: PointSource with prepadding delivers too many
 samples when recording starts late

---
 acoular/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 6e9b7a1..e227600 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -914,7 +914,7 @@ class PointSource(SamplesGenerator):
 
         if self.prepadding == 'zeros':
             # number of blocks where signal behaviour is amended
-            pre = -int(npmin(ind[0]) // (self.up * num))
+            pre = max(0, -int(npmin(ind[0]) // (self.up * num)))
             # amend signal for first blocks
             # if signal stops during prepadding, terminate
             if pre >= N:
-- 
2.43.0


From 4dc18f5c621847cc59260c089857ccb39a19f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:29 +0000
Subject: [PATCH 91/93] fix: line sources fail with signals that have no rms or
 get their data from a source

---
 acoular/sources.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index e227600..3a09774 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1685,18 +1685,18 @@ class LineSource(PointSource):
         # distances from monopoles in the line to microphones
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
-        # seed and rms are chosen for every source, the signal itself remains as it is
-        signal = self.signal.clone_traits()
-        signals = empty((self.num_sources, len(signal.usignal(self.up))))
+        signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
         # for every source - distances
         for s in range(self.num_sources):
             rms[:, s] = self.env._r((loc.T + direc_n * dist * s).T, mpos)
             inds[:, s] = (-rms[:, s] / c - self.start_t + self.start) * self.sample_freq
+            signal = self.signal
             # new seed for every source
             if self.coherence == 'incoherent':
+                # the signal itself remains as it is
+                signal = signal.clone_traits()
                 signal.seed = s + int(self.digest[1:6], 16)
-            signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = signal.usignal(self.up)
+            signals[s] = signal.usignal(self.up) * self.source_strength[s]
         i = 0
         n = self.num_samples
         while n:
@@ -1917,16 +1917,16 @@ class MovingLineSource(LineSource, MovingPointSource):
         # distances from monopoles in the line to microphones
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
-        # seed and rms are chosen for every source, the signal itself remains as it is
-        signal = self.signal.clone_traits()
-        signals = empty((self.num_sources, len(signal.usignal(self.up))))
+        signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
         # coherence
         for s in range(self.num_sources):
+            signal = self.signal
             # new seed for every source
             if self.coherence == 'incoherent':
+                # the signal itself remains as it is
+                signal = signal.clone_traits()
                 signal.seed = s + int(self.digest[1:6], 16)
-            signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = signal.usignal(self.up)
+            signals[s] = signal.usignal(self.up) * self.source_strength[s]
         mpos = self.mics.pos
 
         # shortcuts and initial values
-- 
2.43.0


From e52a605f0c2bf2217bd1b3f6d1d304fda47dc140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:49 +0000
Subject: [PATCH 92/93] fix: a cache file that cannot be opened leaves the user
 count of the former file wrong

---
 acoular/h5cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index d9bc21d..cc5da25 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -99,7 +99,6 @@ class HDF5Cache(HasStrictTraits):
 
         if config.global_caching == 'readonly' and not filename.exists():
             self._forget_cache_file(obj)
-            obj.h5f = None
             return False  # cachefile is not created in readonly mode
 
         if isinstance(obj.h5f, file_cls) and Path(obj.h5f.filename).resolve() == filename:
@@ -123,6 +122,7 @@ class HDF5Cache(HasStrictTraits):
         """Remove the reference of an object to the file it holds from the reference counter."""
         if obj.h5f is not None:
             self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
+            obj.h5f = None
 
 
 H5cache = HDF5Cache(config=config)
-- 
2.43.0


From 636b30777478291ab3364b554d9b34d6f2c0f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:42 +0000
Subject: [PATCH 93/93] fix: IntegratorSectorTime.num_channels stays stale when
 a sector is added to the list

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 3e9f80a..5f9e8a2 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -773,7 +773,7 @@ class IntegratorSectorTime(TimeOut):
     clip = Float(-350.0)
 
     #: Number of channels in output (= number of sectors).
-    num_channels = Property(depends_on=['sectors'])
+    num_channels = Property(depends_on=['sectors[]'])
 
     # internal identifier
     digest = Property(
-- 
2.43.0

