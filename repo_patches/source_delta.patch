From 82d5a1c9f2de9efaa54329f8761c62349c63980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:14 +0000
Subject: [PATCH 01/73] fix: group() lost the start indices of runs after an
 initial run

---
 dolfyn/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index baba0be..36382b5 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -87,7 +87,7 @@ def group(bl, min_length=0):
         if len(ups) == 0:
             ups = np.array([0])
         else:
-            ups = np.concatenate((np.array([0]), [len(ups)]))
+            ups = np.concatenate((np.array([0]), ups))
     if bl[-1]:
         if len(dns) == 0:
             dns = np.array([len(bl)])
-- 
2.43.0


From 24dcb8f0183a46778dc66a32576c075b4aa37297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:14 +0000
Subject: [PATCH 02/73] fix: convert_degrees failed on a single number in tidal
 mode

---
 dolfyn/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index 36382b5..a6967da 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -342,5 +342,5 @@ def convert_degrees(deg, tidal_mode=True):
     """
     out = -(deg - 90) % 360
     if tidal_mode:
-        out[out > 180] -= 360
+        out = out - 360 * (out > 180)
     return out
-- 
2.43.0


From 5efc9a02a858a2a99e59949c06d683b5c6cc5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:18 +0000
Subject: [PATCH 03/73] fix: reshape() with a fractional n_bin raised
 IndexError on long records

---
 dolfyn/binned.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index d61e935..59ecb3b 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -49,8 +49,8 @@ class TimeBinner:
     def _outshape(self, inshape, n_pad=0, n_bin=None):
         """Returns `outshape` (the 'reshape'd shape) for an `inshape` array.
         """
-        n_bin = int(self._parse_nbin(n_bin))
-        return list(inshape[:-1]) + [int(inshape[-1] // n_bin), int(n_bin + n_pad)]
+        n_bin = self._parse_nbin(n_bin)
+        return list(inshape[:-1]) + [int(inshape[-1] // n_bin), int(int(n_bin) + n_pad)]
 
     def _outshape_fft(self, inshape, n_fft=None, n_bin=None):
         """Returns `outshape` (the fft 'reshape'd shape) for an `inshape` array.
-- 
2.43.0


From 440a44c2332cc76dfd0c94f654631bbb778939b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 04/73] fix: ADVBinner call removed the config attributes of
 its input dataset

---
 dolfyn/adv/turbulence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 1f4ccae..d2e12ef 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -39,10 +39,8 @@ class ADVBinner(VelBinner):
                                    window=window,
                                    freq_units=freq_units,
                                    noise=noise)
-        for key in list(ds.attrs.keys()):
-            if 'config' in key:
-                ds.attrs.pop(key)
-        out.attrs = ds.attrs
+        out.attrs = {key: val for key, val in ds.attrs.items()
+                     if 'config' not in key}
         out.attrs['n_bin'] = self.n_bin
         out.attrs['n_fft'] = self.n_fft
         out.attrs['n_fft_coh'] = self.n_fft_coh
-- 
2.43.0


From 9f9c229b904f0899a1fe3bce1402edbc78af23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 05/73] fix: calc_ti ignored its thresh argument

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index c647c0d..3ce2ece 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -961,7 +961,7 @@ class VelBinner(TimeBinner):
                 coords[nm] = U_mag[nm].values
 
         return xr.DataArray(
-            ti.data.astype('float32'),
+            ti.filled(np.nan).astype('float32'),
             coords=coords,
             dims=dims,
             attrs={'units': '% [0,1]',
-- 
2.43.0


From 5b8aebc5b2221bd49d17555ba153ce62f0849f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 06/73] fix: spectra summed more segments than they were
 averaged over

---
 dolfyn/tools/psd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 5ac4d4f..157ff67 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -228,8 +228,8 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
     pwr = fft(detrend(a[0:nfft]) * window)[fft_inds] * \
         np.conj(fft(detrend(b[0:nfft]) * window)[fft_inds])
     if nens - 1:
-        for i1, i2 in zip(range(step[0], l[0] - nfft + 1, step[0]),
-                          range(step[1], l[1] - nfft + 1, step[1])):
+        for i1, i2 in zip(range(step[0], step[0] * nens, step[0]),
+                          range(step[1], step[1] * nens, step[1])):
             pwr += fft(detrend(a[i1:(i1 + nfft)]) * window)[fft_inds] * \
                 np.conj(fft(detrend(b[i2:(i2 + nfft)]) * window)[fft_inds])
     pwr *= wght / nens / fs
@@ -311,7 +311,7 @@ def cpsd(a, b, nfft, fs, window='hann', step=None):
     else:
         pwr = s1 * np.conj(fft(detrend(b[0:nfft]) * window)[fft_inds])
     if nens - 1:
-        for i in range(step, l - nfft + 1, step):
+        for i in range(step, step * nens, step):
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
             if auto_psd:
                 pwr += np.abs(s1) ** 2
@@ -424,7 +424,7 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     l = len(a)
     step, nens, nfft = stepsize(l, nfft, step=step)
     if nens - 1:
-        for i in range(step, l - nfft + 1, step):
+        for i in range(step, step * nens, step):
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
             s1 /= np.abs(s1)
             s2 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
-- 
2.43.0


From ba42501b513f4b75fb536aa5a0463fe7e1a42a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 07/73] fix: phase_angle compared the first signal with itself
 after the first segment

---
 dolfyn/tools/psd.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 157ff67..8029f70 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -414,6 +414,16 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     :func:`cpsd`
     """
 
+    # Take the same number of ensembles from both signals, counted for
+    # the shorter of the two (see cpsd_quasisync)
+    if len(a) <= len(b):
+        step1, nens, nfft = stepsize(len(a), nfft, step=step)
+        step2 = stepsize(len(b), nfft, nens=nens)[0]
+    else:
+        step2, nens, nfft = stepsize(len(b), nfft, step=step)
+        step1 = stepsize(len(a), nfft, nens=nens)[0]
+    if len(a) == len(b):
+        step2 = step1
     window = _getwindow(window, nfft)
     fft_inds = slice(1, int(nfft / 2. + 1))
     s1 = fft(detrend(a[0:nfft]) * window)[fft_inds]
@@ -421,13 +431,12 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     s1 /= np.abs(s1)
     s2 /= np.abs(s2)
     ang = s2 / s1
-    l = len(a)
-    step, nens, nfft = stepsize(l, nfft, step=step)
     if nens - 1:
-        for i in range(step, step * nens, step):
-            s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
+        for i1, i2 in zip(range(step1, step1 * nens, step1),
+                          range(step2, step2 * nens, step2)):
+            s1 = fft(detrend(a[i1:(i1 + nfft)]) * window)[fft_inds]
             s1 /= np.abs(s1)
-            s2 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
+            s2 = fft(detrend(b[i2:(i2 + nfft)]) * window)[fft_inds]
             s2 /= np.abs(s2)
             ang += s2 / s1
     ang /= nens
-- 
2.43.0


From ebebff0e50d04afbb59ccd93f65464d2cfea144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 08/73] fix: cpsd_quasisync was conjugated when its first
 signal is the longer one

---
 dolfyn/tools/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 8029f70..b129794 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -216,8 +216,8 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
     if l[0] == l[1]:
         return cpsd(a, b, nfft, fs, window=window)
     elif l[0] > l[1]:
-        a, b = b, a
-        l = l[::-1]
+        # fft(a)*conj(fft(b)) is the conjugate of fft(b)*conj(fft(a))
+        return np.conj(cpsd_quasisync(b, a, nfft, fs, window=window))
     step = [0, 0]
     step[0], nens, nfft = stepsize(l[0], nfft)
     step[1], nens, nfft = stepsize(l[1], nfft, nens=nens)
-- 
2.43.0


From 0bd3d7e7767a4c54bf2764b189a5e5c5358a0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 09/73] fix: n_bin and n_fft overrides were ignored by parts of
 the spectral and covariance functions

---
 dolfyn/adv/turbulence.py |  2 +-
 dolfyn/binned.py         | 10 +++++-----
 dolfyn/velocity.py       | 21 +++++++++++----------
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index d2e12ef..e98f95f 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -126,7 +126,7 @@ class ADVBinner(VelBinner):
 
         fs_in = self._parse_fs(fs)
         n_fft = self._parse_nfft_coh(n_fft_coh)
-        time = self.mean(veldat.time.values)
+        time = self.mean(veldat.time.values, n_bin=n_bin)
         veldat = veldat.values
         if len(np.shape(veldat)) != 2:
             raise Exception("This function is only valid for calculating TKE using "
diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 59ecb3b..d337b50 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -141,7 +141,7 @@ class TimeBinner:
                 o_attrs[ky] = props[ky]
         return out_ds
 
-    def _new_coords(self, array):
+    def _new_coords(self, array, n_bin=None):
         """Function for setting up a new xarray.DataArray regardless of how 
         many dimensions the input data-array has
         """
@@ -154,7 +154,7 @@ class TimeBinner:
         for ky in dims:
             dims_list.append(ky)
             if 'time' in ky:
-                coords_dict[ky] = self.mean(array.time.values)
+                coords_dict[ky] = self.mean(array.time.values, n_bin=n_bin)
             else:
                 coords_dict[ky] = array.coords[ky].values
 
@@ -396,7 +396,7 @@ class TimeBinner:
             n_pad = min(n_bin - n_fft, n_fft)
         out = np.empty(self._outshape_fft(dat.shape, n_fft=n_fft, n_bin=n_bin))
         # The data is detrended in psd, so we don't need to do it here.
-        dat = self.reshape(dat, n_pad=n_pad)
+        dat = self.reshape(dat, n_pad=n_pad, n_bin=n_bin)
 
         for slc in slice1d_along_axis(dat.shape, -1):
             out[slc] = psd(dat[slc], n_fft, fs,
@@ -454,8 +454,8 @@ class TimeBinner:
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
 
         # The data is detrended in psd, so we don't need to do it here:
-        dat1 = self.reshape(dat1, n_pad=n_fft)
-        dat2 = self.reshape(dat2, n_pad=n_fft)
+        dat1 = self.reshape(dat1, n_pad=n_fft, n_bin=n_bin1)
+        dat2 = self.reshape(dat2, n_pad=n_fft, n_bin=n_bin2)
         out = np.empty(oshp, dtype='c{}'.format(dat1.dtype.itemsize * 2))
         if dat1.shape == dat2.shape:
             cross = cpsd
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 3ce2ece..e4fdb4f 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -698,10 +698,10 @@ class VelBinner(TimeBinner):
                                  window=window, debias=debias,
                                  noise=noise)
 
-        freq = self.calc_freq(self.fs, units='Hz', coh=True)
+        freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft)
 
         # Get time from shorter vector
-        dims_list, coords_dict = self._new_coords(veldat2)
+        dims_list, coords_dict = self._new_coords(veldat2, n_bin=n_bin2)
         # tack on new coordinate
         dims_list.append('f')
         coords_dict['f'] = freq
@@ -774,10 +774,10 @@ class VelBinner(TimeBinner):
             out[slc] = phase_angle(dat1[slc], dat2[slc], n_fft,
                                    window=window)
 
-        freq = self.calc_freq(self.fs, units='Hz', coh=True)
+        freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft)
 
         # Get time from shorter vector
-        dims_list, coords_dict = self._new_coords(veldat2)
+        dims_list, coords_dict = self._new_coords(veldat2, n_bin=n_bin2)
         # tack on new coordinate
         dims_list.append('f')
         coords_dict['f'] = freq
@@ -820,11 +820,11 @@ class VelBinner(TimeBinner):
         n_bin = self._parse_nbin(n_bin)
         out = np.empty(self._outshape(indat.shape, n_bin=n_bin)[:-1] +
                        [int(n_bin // 4)], dtype=indat.dtype)
-        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2)
+        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2, n_bin=n_bin)
         # Here we de-mean only on the 'valid' range:
         dt1 = dt1 - dt1[..., :, int(n_bin // 4):
                         int(-n_bin // 4)].mean(-1)[..., None]
-        dt2 = self.demean(indat)
+        dt2 = self.demean(indat, n_bin=n_bin)
         se = slice(int(n_bin // 4) - 1, None, 1)
         sb = slice(int(n_bin // 4) - 1, None, -1)
         for slc in slice1d_along_axis(dt1.shape, -1):
@@ -839,7 +839,7 @@ class VelBinner(TimeBinner):
                 # For the others we take the average of the two sides.
                 out[slc] = (tmp[se] + tmp[sb]) / 2
 
-        dims_list, coords_dict = self._new_coords(veldat)
+        dims_list, coords_dict = self._new_coords(veldat, n_bin=n_bin)
         # tack on new coordinate
         dims_list.append('lag')
         coords_dict['lag'] = np.arange(n_bin//4)
@@ -908,7 +908,7 @@ class VelBinner(TimeBinner):
                     self.std(dat2, n_bin=n_bin2)[..., :shp[-2]] *
                     n_bin2)[..., None]
 
-        dims_list, coords_dict = self._new_coords(veldat1)
+        dims_list, coords_dict = self._new_coords(veldat1, n_bin=n_bin1)
         # tack on new coordinate
         dims_list.append('dt')
         coords_dict['dt'] = np.arange(npt)
@@ -1134,7 +1134,7 @@ class VelBinner(TimeBinner):
                                               n_fft=n_fft,
                                               step=step)
             coords = {'S': self.S,
-                      'time': self.mean(veldat['time'].values),
+                      'time': self.mean(veldat['time'].values, n_bin=n_bin),
                       'freq': freq}
             dims = ['S', 'time', 'freq']
         else:
@@ -1151,7 +1151,8 @@ class VelBinner(TimeBinner):
                                      n_pad=n_pad,
                                      n_fft=n_fft,
                                      step=step)
-            coords = {veldat.dims[-1]: self.mean(veldat[veldat.dims[-1]].values),
+            coords = {veldat.dims[-1]: self.mean(veldat[veldat.dims[-1]].values,
+                                                 n_bin=n_bin),
                       'freq': freq}
             dims = [veldat.dims[-1], 'freq']
 
-- 
2.43.0


From f76f42da6e03d1803314ed2e7a568a017590e0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 10/73] fix: rounding shortened the bins of cross-spectra and
 covariances by one point

---
 dolfyn/binned.py   | 2 +-
 dolfyn/velocity.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index d337b50..cf6aae1 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -448,7 +448,7 @@ class TimeBinner:
             n_fft = self.n_fft_coh
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index e4fdb4f..12e5afd 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -683,7 +683,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -759,7 +759,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -885,7 +885,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         shp = self._outshape(dat1.shape, n_bin=n_bin1)
         shp[-2] = min(shp[-2], self._outshape(dat2.shape, n_bin=n_bin2)[-2])
-- 
2.43.0


From a2dafb9600d4779214ad95c49a1af1963385c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:36 +0000
Subject: [PATCH 11/73] fix: coherence used other segments for the auto-spectra
 than for the cross-spectrum

---
 dolfyn/tools/psd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index b129794..44d34e1 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -140,11 +140,14 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
         noise = [noise[0], noise[0]]
     if nens <= 2:
         raise Exception("Coherence must be computed from a set of ensembles.")
+    # The auto-spectra use the same ensembles as the cross-spectrum
+    a_use = a[:step1 * (nens - 1) + nfft]
+    b_use = b[:step2 * (nens - 1) + nfft]
     # fs=1 is ok because it comes out in the normalization.  (noise
     # normalization depends on this)
     out = ((np.abs(cross(a, b, nfft, 1, window=window)) ** 2) /
-           ((psd(a, nfft, 1, window=window, step=step1) - noise[0] ** 2 / np.pi) *
-            (psd(b, nfft, 1, window=window, step=step2) - noise[1] ** 2 / np.pi))
+           ((psd(a_use, nfft, 1, window=window, step=step1) - noise[0] ** 2 / np.pi) *
+            (psd(b_use, nfft, 1, window=window, step=step2) - noise[1] ** 2 / np.pi))
            )
     if debias:
         # This is from Benignus1969, it seems to work (make data with different
-- 
2.43.0


From d2d355227230ee1c05ab0a8e53bbc57c9b4a88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:30 +0000
Subject: [PATCH 12/73] fix: calc_epsilon_LT83 removed 2*pi times the noise
 from spectra in rad/s

---
 dolfyn/adv/turbulence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index e98f95f..c4bf52d 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -358,7 +358,11 @@ class ADVBinner(VelBinner):
         # Noise subtraction from binner.TimeBinner.calc_psd_base
         psd = psd.copy()
         if noise is not None:
-            psd -= (noise**2 / (self.fs / 2))
+            # Nyquist frequency in the units of the psd
+            fN = self.fs / 2
+            if psd.freq.units != 'Hz':
+                fN = 2*np.pi * fN
+            psd -= (noise**2 / fN)
             psd = psd.where(psd > 0, np.min(np.abs(psd)) / 100)
 
         freq = psd.freq
-- 
2.43.0


From d8e3e9e80e3e0b99874024fdb00932687c85d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:40 +0000
Subject: [PATCH 13/73] fix: calc_dissipation_LT83 removed 2*pi times the noise
 from spectra in rad/s

---
 dolfyn/adp/turbulence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 5ff46e0..9308541 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -645,7 +645,11 @@ class ADPBinner(VelBinner):
         # Noise subtraction from binner.TimeBinner.calc_psd_base
         psd = psd.copy()
         if noise is not None:
-            psd -= noise**2 / (self.fs / 2)
+            # Nyquist frequency in the units of the psd
+            fN = self.fs / 2
+            if psd.freq.units != 'Hz':
+                fN = 2*np.pi * fN
+            psd -= noise**2 / fN
             psd = psd.where(psd > 0, np.min(np.abs(psd)) / 100)
 
         freq = psd.freq
-- 
2.43.0


From 3a0f535c4f2cf7b6f56086f427847241b4df13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 14/73] fix: bursts that miss the configured duty cycle
 interval were not detected

---
 dolfyn/adv/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adv/motion.py b/dolfyn/adv/motion.py
index 943e0bd..045a7f3 100644
--- a/dolfyn/adv/motion.py
+++ b/dolfyn/adv/motion.py
@@ -102,7 +102,7 @@ class CalcMotion():
         mean = actual_interval.mean()
         # Range will vary depending on how datetime64 rounds the timestamp
         # But isn't an issue if it does
-        if rng > 2 or (mean > interval+1 and mean < interval-1):
+        if rng > 2 or (mean > interval+1 or mean < interval-1):
             raise Exception("Bad duty cycle detected")
 
         # If this passes, it means we're safe to blindly skip n_burst for every integral
-- 
2.43.0


From cac2af5a98eb292e83c06257ed84bcf2f187a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 15/73] fix: separate_probes motion correction mixed up probes
 and vector components

---
 dolfyn/adv/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adv/motion.py b/dolfyn/adv/motion.py
index 045a7f3..7d23309 100644
--- a/dolfyn/adv/motion.py
+++ b/dolfyn/adv/motion.py
@@ -444,7 +444,7 @@ def correct_motion(ds,
         rmat = ds['inst2head_rotmat']
 
         # 1) Rotate body-coordinate velocities to head-coord.
-        velrot = np.dot(rmat, velrot)
+        velrot = np.einsum('ij,j...->i...', rmat, velrot)
         # 2) Rotate body-coord to beam-coord (einsum),
         # 3) Take along beam-component (diagonal),
         # 4) Rotate back to head-coord (einsum),
-- 
2.43.0


From 765af44dbfb4caa33ec5a3d70b86d54af6ec411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:38 +0000
Subject: [PATCH 16/73] fix: AWAC data without orientmat could not be rotated
 to the earth frame

---
 dolfyn/rotate/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 0e8cc08..1a9e1f9 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -96,6 +96,8 @@ def _inst2earth(advo, reverse=False, rotate_vars=None, force=False):
     else:
         if 'vector' in advo.inst_model.lower():
             orientation_down = advo['orientation_down']
+        else:
+            orientation_down = None
 
         omat = _calc_omat(advo['time'], advo['heading'], advo['pitch'],
                           advo['roll'], orientation_down)
-- 
2.43.0


From 01e39a63b22b84fc8d61a0f03cd0567b9daaf4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:07 +0000
Subject: [PATCH 17/73] fix: nan_beyond_surface: a user-supplied beam_angle is
 in degrees like the attribute

---
 dolfyn/adp/clean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index 939aa22..e2cf3ba 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -213,10 +213,11 @@ def nan_beyond_surface(ds, val=np.nan, beam_angle=None, inplace=False):
 
     if beam_angle is None:
         if hasattr(ds, 'beam_angle'):
-            beam_angle = ds.beam_angle * (np.pi/180)
+            beam_angle = ds.beam_angle
         else:
             raise Exception("'beam_angle` not found in dataset attributes. "
                             "Please supply the ADCP's beam angle.")
+    beam_angle = beam_angle * (np.pi/180)
 
     # Surface interference distance calculated from distance of transducers to surface
     if hasattr(ds, 'h_deploy'):
-- 
2.43.0


From 7e612b32aa3bfdf8f3c340d3f51f6d7bfec0c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:07 +0000
Subject: [PATCH 18/73] fix: find_surface: test the threshold for every ping
 along the range axis

---
 dolfyn/adp/clean.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index e2cf3ba..2db4ac2 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -77,7 +77,7 @@ def find_surface(ds, thresh=10, nfilt=None):
     edf = np.diff(ds.amp.values.astype(np.int16), axis=1)
     inds2 = np.max((edf < 0) *
                    np.arange(ds.vel.shape[1] - 1,
-                             dtype=np.uint8)[None, :, None], axis=1) + 1
+                             dtype=int)[None, :, None], axis=1) + 1
 
     # Calculate the depth of these quantities
     d1 = ds.range.values[inds]
@@ -88,9 +88,10 @@ def find_surface(ds, thresh=10, nfilt=None):
     d = np.median(D, axis=0)
 
     # Throw out values that do not increase near the surface by *thresh*
-    for ip in range(ds.vel.shape[1]):
-        itmp = np.min(inds[:, ip])
-        if (edf[itmp:, :, ip] < thresh).all():
+    for ip in range(ds.vel.shape[-1]):
+        # start from the increase that leads to the maximum
+        itmp = max(np.min(inds[:, ip]) - 1, 0)
+        if (edf[:, itmp:, ip] < thresh).all():
             d[ip] = np.NaN
 
     if nfilt:
-- 
2.43.0


From 72cb3752146ae6624ae890a7863e5a36ddce2a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 19/73] fix: calc_dudz failed for down-facing instruments

---
 dolfyn/adp/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 9308541..2d1975d 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -99,8 +99,8 @@ class ADPBinner(VelBinner):
         if orientation == 'down':
             sign *= -1
 
-        dudz, rng = sign*self._diff_func(vel, 0)
-        return xr.DataArray(dudz,
+        dudz, rng = self._diff_func(vel, 0)
+        return xr.DataArray(sign*dudz,
                             coords=[rng, vel.time],
                             dims=['range', 'time'],
                             attrs={'units': 's-1',
-- 
2.43.0


From 2afd1cdfd200d48df3b6b65be6a22e28ff77c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 20/73] fix: ADP stresses: a supplied beam_angle takes
 precedence over the default attribute

---
 dolfyn/adp/turbulence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 2d1975d..eb5ee36 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -251,7 +251,9 @@ class ADPBinner(VelBinner):
         """List of error and warnings to run through for ADCP stress calculations.
         """
         # Error 1. Beam Angle
-        b_angle = getattr(ds, 'beam_angle', beam_angle)
+        b_angle = beam_angle
+        if b_angle is None:
+            b_angle = getattr(ds, 'beam_angle', None)
         if b_angle is None:
             raise Exception(
                 "    Beam angle not found in dataset and no beam angle supplied.")
-- 
2.43.0


From 057e3a83fd8dd8a28dff7033501d7de0599059d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 21/73] fix: calc_stress_5beam: beam indices and factors of
 Guerra & Thomson (2017)

---
 dolfyn/adp/turbulence.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index eb5ee36..d7eb08b 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -477,14 +477,14 @@ class ADPBinner(VelBinner):
         upup_ = (-2*sin(th)**4*cos(th)**2*(bp2_[1]+bp2_[0]-2*cos(th)**2*bp2_[4]) +
                  2*sin(th)**5*cos(th)*phi3*(bp2_[1]-bp2_[0])) / denm
 
-        vpvp_ = (-2*sin(th)**4*cos(th)**2*(bp2_[3]+bp2_[0]-2*cos(th)**2*bp2_[4]) -
+        vpvp_ = (-2*sin(th)**4*cos(th)**2*(bp2_[3]+bp2_[2]-2*cos(th)**2*bp2_[4]) -
                  2*sin(th)**4*cos(th)**2*phi3*(bp2_[1]-bp2_[0]) +
                  2*sin(th)**3*cos(th)**3*phi3*(bp2_[1]-bp2_[0]) -
                  2*sin(th)**5*cos(th)*phi2*(bp2_[3]-bp2_[2])) / denm
 
-        wpwp_ = (-2*sin(th)**5*cos(th) *
-                 (bp2_[1]-bp2_[0] + 2*sin(th)**5*cos(th)*phi2*(bp2_[3]-bp2_[2]) -
-                  4*sin(th)**6*cos(th)**2*bp2_[4])) / denm
+        wpwp_ = (-2*sin(th)**5*cos(th)*phi3*(bp2_[1]-bp2_[0]) +
+                 2*sin(th)**5*cos(th)*phi2*(bp2_[3]-bp2_[2]) -
+                 4*sin(th)**6*cos(th)**2*bp2_[4]) / denm
 
         tke_vec = xr.DataArray(
             np.stack([upup_, vpvp_, wpwp_]).astype('float32'),
@@ -506,14 +506,14 @@ class ADPBinner(VelBinner):
                                dtype=np.float64).astype(np.float32)
 
             upwp_ = (sin(th)**5*cos(th)*(bp2_[1]-bp2_[0]) +
-                     2*sin(th)**4*cos(th)*2*phi3*(bp2_[1]+bp2_[0]) -
-                     4*sin(th)**4*cos(th)*2*phi3*bp2_[4] -
-                     4*sin(th)**6*cos(th)*2*phi2*upvp_) / denm
+                     2*sin(th)**4*cos(th)**2*phi3*(bp2_[1]+bp2_[0]) -
+                     4*sin(th)**4*cos(th)**2*phi3*bp2_[4] -
+                     4*sin(th)**6*cos(th)**2*phi2*upvp_) / denm
 
             vpwp_ = (sin(th)**5*cos(th)*(bp2_[3]-bp2_[2]) -
-                     2*sin(th)**4*cos(th)*2*phi2*(bp2_[3]+bp2_[2]) +
-                     4*sin(th)**4*cos(th)*2*phi2*bp2_[4] +
-                     4*sin(th)**6*cos(th)*2*phi3*upvp_) / denm
+                     2*sin(th)**4*cos(th)**2*phi2*(bp2_[3]+bp2_[2]) +
+                     4*sin(th)**4*cos(th)**2*phi2*bp2_[4] +
+                     4*sin(th)**6*cos(th)**2*phi3*upvp_) / denm
 
             stress_vec = xr.DataArray(
                 np.stack([upvp_, upwp_, vpwp_]).astype('float32'),
-- 
2.43.0


From f27ef3b9c1575057d7c73abf933d7ec09ed32397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 22/73] fix: calc_dissipation_SF: r^(2/3) law, separations
 within r_range, cell index rounding

---
 dolfyn/adp/turbulence.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index d7eb08b..74a4fb4 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -747,15 +747,16 @@ class ADPBinner(VelBinner):
         n = np.empty(bm.shape[:2], dtype='float32')*np.nan
 
         bin_size = round(np.diff(rng)[0], 3)
-        R = int(r_range[0]/bin_size)
-        r = np.arange(bin_size, r_range[1]+bin_size, bin_size)
+        r = np.arange(bin_size, r_range[1]+bin_size/100, bin_size)
+        # index of the first separation within r_range
+        R = int(np.searchsorted(np.round(r, 3), r_range[0]))
 
         # D(z,r,time)
         D = np.zeros((bm.shape[0], r.size, bm.shape[1]))
         for r_value in r:
             # the i in d is the index based on r and bin size
             # bin size index, > 1
-            i = int(r_value/bin_size)
+            i = int(round(r_value/bin_size))
             for idx in range(bm.shape[1]):  # for each ensemble
                 # subtract the variance of adjacent depth cells
                 d = np.nanmean(
@@ -773,7 +774,7 @@ class ADPBinner(VelBinner):
             for i in range(D.shape[1], D.shape[0]):
                 # average ensembles together
                 if not all(np.isnan(D[i, R:, idx])):  # if no nan's
-                    e[i, idx], n[i, idx] = np.polyfit(r[R:] ** 2/3,
+                    e[i, idx], n[i, idx] = np.polyfit(r[R:] ** (2/3),
                                                       D[i, R:, idx],
                                                       deg=1)
                 else:
-- 
2.43.0


From 7ac2e8cd88b8b446aa835c18f3aba21e5f4760bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:37 +0000
Subject: [PATCH 23/73] fix: missing bottom-track and surface-layer velocities
 in TRDI files are NaN, like missing water velocities

---
 dolfyn/io/rdi_defs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi_defs.py b/dolfyn/io/rdi_defs.py
index 8c65812..147320e 100644
--- a/dolfyn/io/rdi_defs.py
+++ b/dolfyn/io/rdi_defs.py
@@ -186,4 +186,5 @@ class _ensemble():
                              dtype=data_defs[nm][2]))
 
     def clean_data(self,):
-        self['vel'][self['vel'] == -32.768] = np.NaN
+        for nm in ("vel", "vel_bt", "vel_sl"):
+            self[nm][self[nm] == -32.768] = np.NaN
-- 
2.43.0


From 52370b0a34be6ba645736f2218c8f54e20dcce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:37 +0000
Subject: [PATCH 24/73] fix: high byte of the TRDI ensemble number counts 65536

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 80f2fc8..4376d19 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -840,7 +840,7 @@ class _RDIReader():
                            'adc']
         ens.number[k] = fd.read_ui16(1)
         ens.rtc[:, k] = fd.read_ui8(7)
-        ens.number[k] += 65535 * fd.read_ui8(1)
+        ens.number[k] += 65536 * fd.read_ui8(1)
         ens.builtin_test_fail[k] = fd.read_ui16(1)
         ens.c_sound[k] = fd.read_ui16(1)
         ens.depth[k] = fd.read_ui16(1) * 0.1
-- 
2.43.0


From a6b6c4e84d4f83a51c967b5460bce71479f5f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:37 +0000
Subject: [PATCH 25/73] fix: read TRDI files whose system configuration says
 'other' beam angle

---
 dolfyn/io/rdi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 4376d19..b551d01 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -746,7 +746,8 @@ class _RDIReader():
         cfg['inst_model'] = defs.adcp_type.get(tmp[0],
                                                'unrecognized firmware version')
         config = tmp[2:4]
-        cfg['beam_angle'] = [15, 20, 30][(config[1] & 3)]
+        # 3 is any other angle: newer firmware gives it below
+        cfg['beam_angle'] = [15, 20, 30, None][(config[1] & 3)]
         beam5 = [0, 1][int((config[1] & 16) == 16)]
         cfg['freq'] = ([75, 150, 300, 600, 1200, 2400, 38][(config[0] & 7)])
         cfg['beam_pattern'] = (['concave',
-- 
2.43.0


From f5990519c16d8fa43abb96c4f59151a00572135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:18 +0000
Subject: [PATCH 26/73] fix: TRDI reader survives files cut within an ensemble
 and stray sync bytes pointing past the end

---
 dolfyn/io/rdi.py     | 5 +++++
 dolfyn/io/rdi_lib.py | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index b551d01..a57cccd 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -525,13 +525,18 @@ class _RDIReader():
         valid = False
         if self._debug_level >= 0:
             logging.info('pos {}'.format(self.f.pos))
+        pos = fd.tell()
         numbytes = fd.read_i16(1)
+        if numbytes is None:
+            return False
         if numbytes > 0:
             fd.seek(numbytes - 2, 1)
             cfgid = fd.read_ui8(2)
             if cfgid is None:
                 if self._debug_level > 1:
                     logging.info('EOF')
+                # Not a header, there may be one further on
+                fd.seek(pos, 0)
                 return False
             if len(cfgid) == 2:
                 fd.seek(-numbytes - 2, 1)
diff --git a/dolfyn/io/rdi_lib.py b/dolfyn/io/rdi_lib.py
index a707f8f..1a8a93e 100644
--- a/dolfyn/io/rdi_lib.py
+++ b/dolfyn/io/rdi_lib.py
@@ -76,8 +76,9 @@ class bin_reader():
         return val
 
     def read(self, n, frmt):
-        val = self.f.read(n * self._size_factor[frmt])
-        if not val:  # If val is empty we are at the end of the file.
+        size = n * self._size_factor[frmt]
+        val = self.f.read(size)
+        if len(val) < size or not val:  # We are at the end of the file.
             return None
         self.cs and self.cs.add(val)
         if n == 1:
-- 
2.43.0


From ef90f6c6afad0ffa5050879652616d25151ec8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:45 +0000
Subject: [PATCH 27/73] fix: unknown TRDI data types last in, or absent from,
 the first ensemble are skipped

---
 dolfyn/io/rdi.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index a57cccd..e92eab5 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1287,12 +1287,12 @@ class _RDIReader():
             # I want to count the number of 1s in the middle 4 bits
             # of the 2nd two bytes.
             # 60 is a 0b00111100 mask
-            nflds = (bin(int(hxid[3]) & 60).count('1') +
-                     bin(int(hxid[4]) & 60).count('1'))
+            nflds = (bin(int(hxid[3], 16) & 60).count('1') +
+                     bin(int(hxid[4], 16) & 60).count('1'))
             # I want to count the number of 1s in the highest
             # 2 bits of byte 3
             # 3 is a 0b00000011 mask:
-            dfac = bin(int(hxid[3], 0) & 3).count('1')
+            dfac = bin(int(hxid[3], 16) & 3).count('1')
             self.skip_Nbyte(12 * nflds * dfac)
         else:
             if self._debug_level >= 0:
@@ -1302,8 +1302,13 @@ class _RDIReader():
     def skip_nocode(self, id):
         # Skipping bytes if ID isn't known
         offsets = list(self.id_positions.values())
-        idx = np.where(offsets == self.id_positions[id])[0][0]
-        byte_len = offsets[idx+1] - offsets[idx] - 2
+        idx = np.where(offsets == self.id_positions.get(id))[0]
+        if len(idx) and idx[0] + 1 < len(offsets):
+            byte_len = offsets[idx[0]+1] - offsets[idx[0]] - 2
+        else:
+            # Last in, or not in, the first ensemble: `read_buffer` moves on
+            # by the offsets in the header
+            byte_len = 0
 
         self.skip_Nbyte(byte_len)
         if self._debug_level >= 0:
-- 
2.43.0


From 5e4810d1e8f33cafb255446b90ef08dbc136cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:19 +0000
Subject: [PATCH 28/73] fix: TRDI files of small ensembles lost the last
 ensembles to a low estimate of their number

---
 dolfyn/io/rdi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index e92eab5..267fbde 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -207,7 +207,8 @@ class _RDIReader():
         # Check header, double buffer, and get filesize
         self._filesize = getsize(self.fname)
         space = self.code_spacing()  # '0x7F'
-        self._npings = int(self._filesize / (space + 2))
+        # An upper bound, `remove_end` trims it
+        self._npings = int(self._filesize / (space or self._filesize))
         if self._debug_level >= 0:
             logging.info('Done: {}'.format(self.cfg))
             logging.info('self._bb {}'.format(self._bb))
-- 
2.43.0


From 59a2fd08d9f4389a24e22e6bbe7da08fc8efcb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 29/73] fix: bottom-track block of WinRiver files: 26 bytes
 follow the percent good, not 14

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 267fbde..362c44c 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1026,7 +1026,7 @@ class _RDIReader():
                                                        ens.longitude_gps[k]))
                 ens.latitude_gps[k] = np.NaN
                 ens.longitude_gps[k] = np.NaN
-            fd.seek(71 - 45 - 16 - 17, 1)
+            fd.seek(71 - 45 - 21, 1)
             self._nbyte = 2 + 68
         else:
             # Skip reference layer data
-- 
2.43.0


From 9399a51c2c11da3cd85e5736de0d2533e9913506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 30/73] fix: WinRiver2 messages that are not read are skipped

---
 dolfyn/io/rdi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 362c44c..ec1e10b 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1259,6 +1259,9 @@ class _RDIReader():
             self.vars_read += ['heading_gps']
             self._nbyte = self.f.tell() - startpos + 2
 
+        else:  # not a message read here, `read_buffer` moves past it
+            self._nbyte = self.f.tell() - startpos + 2
+
     def read_winriver(self, nbt):
         self._winrivprob = True
         self.cfg['sourceprog'] = 'WINRIVER'
-- 
2.43.0


From 68b0043674625c1cbf92e4f2037b9b22b8eea608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:02 +0000
Subject: [PATCH 31/73] fix: a userdata declination replaces the one in the
 TRDI file in the data too, as the warning says

---
 dolfyn/io/rdi.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index ec1e10b..cabe973 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -176,7 +176,6 @@ def _set_rdi_declination(dat, fname, inplace):
             "'magnetic_var_deg', delete the value from userdata.json and "
             "re-read the file."
             .format(dat.attrs['magnetic_var_deg'], fname, declin))
-        dat.attrs['declination'] = declin
 
     if declin is not None:
         set_declination(dat, declin, inplace)
-- 
2.43.0


From 2215b09bf06a9018eff9964ff7d10c3a2df9c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:02 +0000
Subject: [PATCH 32/73] fix: reading WinRiver files with a depth sounder and
 repeated GPS times

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index cabe973..290440d 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -148,7 +148,7 @@ def _remove_gps_duplicates(dat):
         dat['coords']['time_gps'] = dat['coords']['time_gps'][~nan]
 
     for key in dat['data_vars']:
-        if ('gps' in key) or ('nmea' in key):
+        if 'gps' in key:
             dat['data_vars'][key] = dat['data_vars'][key][idx]
             if sum(nan) > 0:
                 dat['data_vars'][key] = dat['data_vars'][key][~nan]
-- 
2.43.0


From 18f8c559c7256bc9b167773b5ad486468dae4a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:49 +0000
Subject: [PATCH 33/73] fix: crop classic Nortek data to the samples in the
 file

---
 dolfyn/io/nortek.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index db8af56..ea8a48a 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -433,8 +433,8 @@ class _NortekReader():
         else:
             if self.debug:
                 logging.info(' stopped at {} bytes.'.format(self.pos))
-        self.c -= 1
-        _crop_data(self.data, slice(0, self.c), self.n_samp_guess)
+        for grp in ['data_vars', 'coords', 'sys']:
+            _crop_data(self.data[grp], slice(0, self.c), self.n_samp_guess)
         # add the start time to vectrino data coordinate time
         if self.data['attrs']['inst_model'] == 'Vectrino':
             self.data['coords']['time'] += self.config['start_time_VNO']
@@ -1278,6 +1278,8 @@ class _NortekReader():
 
 def _crop_data(obj, range, n_lastdim):
     for nm, dat in obj.items():
+        if nm == 'beam2inst_orientmat':
+            continue  # does not vary in time
         if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_lastdim):
             obj[nm] = dat[..., range]
 
-- 
2.43.0


From 759ba946b75a4318794a1d1aa47296631fa62cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:50 +0000
Subject: [PATCH 34/73] fix: apply the start ensemble of nens in the classic
 Nortek reader

---
 dolfyn/io/nortek.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index ea8a48a..d729fe8 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -57,6 +57,9 @@ def read_nortek(filename, userdata=True, debug=False, do_checksum=False,
         rdr.readfile()
     rdr.dat2sci()
     dat = rdr.data
+    if rdr._n_start:
+        for grp in ['data_vars', 'coords', 'sys']:
+            _crop_data(dat[grp], slice(rdr._n_start, None), rdr.c)
 
     # Remove trailing nan's in time and orientation data
     dat = _handle_nan(dat)
-- 
2.43.0


From 714516521f69fe29c408673cf249689bd252c26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:50 +0000
Subject: [PATCH 35/73] fix: do_checksum raised an error for every classic
 Nortek file

---
 dolfyn/io/nortek.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index d729fe8..dd04375 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -478,10 +478,11 @@ class _NortekReader():
         """Perform a checksum on `byts` and read the checksum value.
         """
         if self.do_checksum:
-            if not np.sum(unpack(self.endian + str(int(1 + len(byts) / 2)) + 'H',
-                                 self._thisid_bytes + byts)) + \
-                    46476 - unpack(self.endian + 'H', self.read(2)):
-
+            block = self._thisid_bytes + byts
+            words = unpack(self.endian + str(len(block) // 2) + 'H',
+                           block[:len(block) // 2 * 2])
+            if (46476 + sum(words)) % 65536 != \
+                    unpack(self.endian + 'H', self.read(2))[0]:
                 raise Exception("CheckSum Failed at {}".format(self.pos))
         else:
             self.f.seek(2, 1)
-- 
2.43.0


From 223caa1b519ef1ea80befeeb2b52056e3e916a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:50 +0000
Subject: [PATCH 36/73] fix: burst_mode of classic Nortek files was always True

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index dd04375..87ff0db 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -515,7 +515,7 @@ class _NortekReader():
         # (note: bit numbering is zero-based)
         cfg_u['usr']['profile_mode'] = [
             'single', 'continuous'][TimCtrlReg[1]]
-        cfg_u['usr']['burst_mode'] = str(bool(~TimCtrlReg[2]))
+        cfg_u['usr']['burst_mode'] = str(not TimCtrlReg[2])
         cfg_u['usr']['power_level'] = TimCtrlReg[5] + 2 * TimCtrlReg[6] + 1
         cfg_u['usr']['sync_out_pos'] = ['middle', 'end', ][TimCtrlReg[7]]
         cfg_u['usr']['sample_on_sync'] = str(bool(TimCtrlReg[8]))
-- 
2.43.0


From b0e45131db75cff49759cb4c775b489c645d275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:50 +0000
Subject: [PATCH 37/73] fix: AWAC pitch, roll and temperature are signed

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 87ff0db..cdec632 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -1068,7 +1068,7 @@ class _NortekReader():
          p_msb,
          dv['status'][c],
          p_lsw,
-         dv['temp'][c],) = unpack(self.endian + '7HBB2H', byts[8:28])
+         dv['temp'][c],) = unpack(self.endian + '4H3hBBHh', byts[8:28])
         dv['pressure'][c] = (65536 * p_msb + p_lsw)
         # The nortek system integrator manual specifies an 88byte 'spare'
         # field, therefore we start at 116.
-- 
2.43.0


From 4468dd02659bf80189dcd41e9f1906027118c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:50 +0000
Subject: [PATCH 38/73] fix: Vector temperature is signed

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index cdec632..44d1bf9 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -843,7 +843,7 @@ class _NortekReader():
          dv['temp'][c],
          dv['error'][c],
          dv['status'][c],
-         ds['AnaIn'][c]) = unpack(self.endian + '2H3hH2BH', byts[8:])
+         ds['AnaIn'][c]) = unpack(self.endian + '2H4h2BH', byts[8:])
         self.checksum(byts)
 
     def sci_vec_sysdata(self,):
-- 
2.43.0


From 0132d7825d8c6624f009d03dc47698e5136da4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:50 +0000
Subject: [PATCH 39/73] fix: sample times of Vector bursts with few system
 records

---
 dolfyn/io/nortek.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 44d1bf9..91b0932 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -877,10 +877,10 @@ class _NortekReader():
                 p = np.poly1d(np.polyfit(inds, t[iburst][inds], 1))
                 t[iburst] = p(arng)
             elif len(inds) == 1:
-                t[iburst] = ((arng - inds[0]) / (fs * 3600 * 24) +
+                t[iburst] = ((arng - inds[0]) / fs +
                              t[iburst][inds[0]])
             else:
-                t[iburst] = (t[iburst][0] + arng / (fs * 24 * 3600))
+                t[iburst] = (t[iburst][0] + arng / fs)
 
             tmpd = tbx._nans_like(dv['heading'][iburst])
             # The first status bit should be the orientation.
-- 
2.43.0


From 5e787d5d3857153b9c51745e4e059ca917aea201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:03 +0000
Subject: [PATCH 40/73] fix: keep the range axis when the start of a classic
 Nortek file is cropped

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 91b0932..42ce7e0 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -1282,7 +1282,7 @@ class _NortekReader():
 
 def _crop_data(obj, range, n_lastdim):
     for nm, dat in obj.items():
-        if nm == 'beam2inst_orientmat':
+        if nm in ['beam2inst_orientmat', 'range']:
             continue  # does not vary in time
         if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_lastdim):
             obj[nm] = dat[..., range]
-- 
2.43.0


From 23405d28e97948f823051afe6b8f2051063af650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:47 +0000
Subject: [PATCH 41/73] fix: Vector orientation at the status record where it
 changes to up

---
 dolfyn/io/nortek.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 42ce7e0..7888f9c 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -890,6 +890,8 @@ class _NortekReader():
             slope = np.diff(tmpd)
             tmpd[1:][slope < 0] = 1
             tmpd[:-1][slope > 0] = 0
+            # Samples with a status record have the orientation it gives.
+            tmpd[sysi] = dv['status'][iburst][sysi] & 1
             dv['orientation_down'][iburst] = tmpd.astype('bool')
         tbx.interpgaps(dv['batt'], t)
         tbx.interpgaps(dv['c_sound'], t)
-- 
2.43.0


From d13a63f72b53762dd78b3b94525c298e0dae1221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:47 +0000
Subject: [PATCH 42/73] fix: IMU blocks of unknown kinds discarded samples of
 Vector files

---
 dolfyn/io/nortek.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 7888f9c..a7f7dca 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -919,6 +919,7 @@ class _NortekReader():
                 dat['long_name'].pop('orientmat')
 
         # 0x71 = 113
+        c0 = self.c
         if self.c == 0:
             logging.warning('First "microstrain data" block '
                             'is before first "vector system data" block.')
@@ -930,11 +931,15 @@ class _NortekReader():
         byts0 = self.read(4)
         # The first 2 are the size, 3rd is count, 4th is the id.
         ahrsid = unpack(self.endian + '3xB', byts0)[0]
+        if ahrsid not in [195, 204, 211]:
+            logging.warning('Unrecognized IMU identifier: ' + str(ahrsid))
+            # Skip this block, the samples before it are complete
+            self.c = c0
+            self.f.seek(-6, 1)
+            return 10
         if hasattr(self, '_ahrsid') and self._ahrsid != ahrsid:
             logging.warning('AHRS_ID changes mid-file!')
-
-        if ahrsid in [195, 204, 210, 211]:
-            self._ahrsid = ahrsid
+        self._ahrsid = ahrsid
 
         c = self.c
         dat = self.data
@@ -1007,10 +1012,6 @@ class _NortekReader():
             (dv['angrt'][:, c],
              dv['accel'][:, c],
              dv['mag'][:, c]) = (dt[0:3], dt[3:6], dt[6:9],)
-        else:
-            logging.warning('Unrecognized IMU identifier: ' + str(ahrsid))
-            self.f.seek(-2, 1)
-            return 10
         self.checksum(byts0 + byts)
         self.c += 1  # reset the increment
 
-- 
2.43.0


From fcc3a3266638a8fb2b827ed828a40d3f80eea113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 43/73] fix: Signature temperatures are signed

---
 dolfyn/io/nortek2_defs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_defs.py b/dolfyn/io/nortek2_defs.py
index 8456734..2014910 100644
--- a/dolfyn/io/nortek2_defs.py
+++ b/dolfyn/io/nortek2_defs.py
@@ -189,7 +189,7 @@ _burst_hdr = [
     ('usec100', 'H', [], None),
     ('c_sound', 'H', [], _LinFunc(0.1, dtype=dt32), 'm s-1',
      'Speed of Sound', 'speed_of_sound_in_sea_water'),
-    ('temp', 'H', [], _LinFunc(0.01, dtype=dt32),
+    ('temp', 'h', [], _LinFunc(0.01, dtype=dt32),
      'degree_C', 'Temperature', 'sea_water_temperature'),
     ('pressure', 'I', [], _LinFunc(0.001, dtype=dt32),
      'dbar', 'Pressure', 'sea_water_pressure'),
@@ -237,7 +237,7 @@ _bt_hdr = [
     ('usec100', 'H', [], None),
     ('c_sound', 'H', [], _LinFunc(0.1, dtype=dt32), 'm s-1',
      'Speed of Sound', 'speed_of_sound_in_sea_water'),
-    ('temp', 'H', [], _LinFunc(0.01, dtype=dt32),
+    ('temp', 'h', [], _LinFunc(0.01, dtype=dt32),
      'degree_C', 'Temperature', 'sea_water_temperature'),
     ('pressure', 'I', [], _LinFunc(0.001, dtype=dt32),
      'dbar', 'Pressure', 'sea_water_pressure'),
-- 
2.43.0


From 7c990e3955b1d30fcc99f80edda2e121463f5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 44/73] fix: Signature record sizes are unsigned

---
 dolfyn/io/nortek2_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index b72bfb7..167099e 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -36,7 +36,7 @@ def _reduce_by_average_angle(data, ky0, ky1, degrees=True):
 # This is the data-type of the index file.
 # This must match what is written-out by the create_index function.
 _index_version = 1
-_hdr = struct.Struct('<BBBBhhh')
+_hdr = struct.Struct('<BBBBHHH')
 _index_dtype = {
     None:
     np.dtype([('ens', np.uint64),
-- 
2.43.0


From d55eecf9d5356cd66d76cbc7310eb6df0cf592f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 45/73] fix: count Signature ensembles from a counter starting
 at 0

---
 dolfyn/io/nortek2_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 167099e..d4e4d88 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -127,13 +127,13 @@ def _create_index(infile, outfile, N_ens, debug):
             fin.seek(seek_2ens[dat[2]], 1)
             ens[idk] = struct.unpack('<I', fin.read(4))[0]
 
-            if last_ens[idk] > 0:
+            if last_ens[idk] >= 0:
                 if (ens[idk] == 1) or (ens[idk] < last_ens[idk]):
                     # Covers all id keys saved in "burst mode"
                     # Covers ID keys not saved in sequential order
                     ens[idk] = last_ens[idk] + 1
 
-            if last_ens[idk] > 0 and last_ens[idk] != ens[idk]:
+            if last_ens[idk] >= 0 and last_ens[idk] != ens[idk]:
                 N[idk] += 1
 
             fout.write(struct.pack('<QIQ4H6BHB', N[idk], ens[idk], pos, idk,
-- 
2.43.0


From 3b08ef0143275e51c69ad22a53cfdd4371e25597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 46/73] fix: index only the Signature records that are read

---
 dolfyn/io/nortek2_lib.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index d4e4d88..d90806d 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -101,16 +101,15 @@ def _create_index(infile, outfile, N_ens, debug):
     fout = open(_abspath(outfile), 'wb')
     fout.write(b'Index Ver:')
     fout.write(struct.pack('<H', _index_version))
-    ids = [21, 22, 23, 24, 26, 28,
-           27, 29, 30, 31, 35, 36]
+    ids = [21, 22, 23, 24, 26, 28, 31]
     # Saved: burst, avg, bt, vel_b5, alt_raw, echo
-    # Not saved: bt record, DVL, alt record, avg alt_raw record, raw echo, raw echo transmit
+    # Not read (27, 29, 30, 35, 36): bt record, DVL, alt record, raw echo, raw echo transmit
     ens = dict.fromkeys(ids, 0)
     N = dict.fromkeys(ids, 0)
     config = 0
     last_ens = dict.fromkeys(ids, -1)
     seek_2ens = {21:40, 22:40, 23:42, 24:40, 26:40, 28:40, # 23 starts from "42"
-                 27:40, 29:40, 30:40, 31:40, 35:40, 36:40}
+                 31:40}
     while N[21] < N_ens:  # Will fail if velocity ping isn't saved first
         pos = fin.tell()
         try:
-- 
2.43.0


From 684c6f3e7edc04766b050ff8b38b6f13d348b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 47/73] fix: ignore a Signature record cut by the end of the
 file

---
 dolfyn/io/nortek2.py     | 3 +++
 dolfyn/io/nortek2_lib.py | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 2395a23..3c2672f 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -289,6 +289,9 @@ class _Ad2cpReader():
                 hdr = self._read_hdr()
             except IOError:
                 return outdat
+            if self.f.tell() + hdr['sz'] > self._eof:
+                # The file ends inside this record
+                return outdat
             id = hdr['id']
             if id in [21, 22, 23, 24, 28]:  # "burst data record" (vel + ast),
                 # "avg data record" (vel_avg + ast_avg), "bottom track data record" (bt),
diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index d90806d..26a0f3b 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -98,6 +98,9 @@ def _create_index(infile, outfile, N_ens, debug):
     logging = getLogger()
     print("Indexing {}...".format(infile), end='')
     fin = open(_abspath(infile), 'rb')
+    fin.seek(0, 2)
+    eof = fin.tell()
+    fin.seek(0, 0)
     fout = open(_abspath(outfile), 'wb')
     fout.write(b'Index Ver:')
     fout.write(struct.pack('<H', _index_version))
@@ -116,6 +119,8 @@ def _create_index(infile, outfile, N_ens, debug):
             dat = _hdr.unpack(fin.read(_hdr.size))
         except:
             break
+        if fin.tell() + dat[4] > eof:
+            break  # the file ends inside this record
         if dat[2] in ids:
             idk = dat[2]
             d_ver, d_off, config = struct.unpack('<BBH', fin.read(4))
-- 
2.43.0


From 3a6843f41cdec29d69669d7f70ff13b63f3065f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 48/73] fix: find whether the last Signature ensemble is whole
 from its last record

---
 dolfyn/io/nortek2.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 3c2672f..616fe44 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -145,10 +145,18 @@ class _Ad2cpReader():
         self.unknown_ID_count = {}
 
     def _calc_lastblock_iswhole(self, ):
+        # The end of the last data record in the file
+        self.f.seek(int(self._index['pos'][-1]), 0)
+        hdr = self._read_hdr()
+        end = self.f.tell() + hdr['sz']
+        if end > self._eof:
+            return False
+        if len(self._ens_pos) == 1:
+            return True
         blocksize, blocksize_count = np.unique(np.diff(self._ens_pos),
                                                return_counts=True)
         standard_blocksize = blocksize[blocksize_count.argmax()]
-        return (self._eof - self._ens_pos[-1]) == standard_blocksize
+        return (end - self._ens_pos[-1]) == standard_blocksize
 
     def _check_nortek(self, endian):
         self._reopen(10)
-- 
2.43.0


From 8d77c05b73ec2725e3de2256a975f7c8cfc17e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 49/73] fix: ensembles of lost Signature records and raw
 altimeter pings

---
 dolfyn/io/nortek2_lib.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 26a0f3b..a7e8811 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -167,7 +167,6 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
         hwe = idx['hw_ens'].copy()
     period = hwe.max()
     ens = idx['ens']
-    N_id = len(uid)
     FLAG = False
 
     # Are there better ways to detect dual profile?
@@ -175,12 +174,18 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
         warnings.warn("Dual Profile detected... Two datasets will be returned.")
         dp = True
 
+    # Raw altimeter pings (26 and 31) are not recorded with every ensemble
+    altraw = (idx['ID'] == 26) | (idx['ID'] == 31)
+    order = np.cumsum(~altraw)
+    N_id = len(np.unique(idx['ID'][~altraw]))
+
     # This loop fixes 'skips' inside the file
     for id in uid:
         # These are the indices for this ID
-        inds = np.nonzero(idx['ID'] == id)[0]
+        inds = np.nonzero((idx['ID'] == id) & ~altraw)[0]
         # These are bad steps in the indices for this ID
-        ibad = np.nonzero(np.diff(inds) > N_id)[0]
+        step = np.diff(order[inds])
+        ibad = np.nonzero(step > N_id)[0]
         # Check if spacing is equal for dual profiling ADCPs
         if dp:
             skip_size = np.diff(ibad)
@@ -198,8 +203,15 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
             # the ensemble count is wrong.
             warnings.warn("Skipped ping (ID: {}) in file {} at ensemble {}."
                           .format(id, infile, idx['ens'][inds[ib + 1] - 1]))
-            hwe[inds[(ib + 1):]] += 1
-            ens[inds[(ib + 1):]] += 1
+            # The other IDs were recorded in the ensembles in between
+            n_skip = 1 if dp else -((N_id - step[ib]) // (N_id - 1))
+            hwe[inds[(ib + 1):]] += n_skip
+            ens[inds[(ib + 1):]] += n_skip
+
+    # A raw altimeter ping belongs to the ensemble it was recorded in
+    for i in np.nonzero(altraw)[0]:
+        if i > 0:
+            ens[i] = ens[i - 1]
 
     # if not dp:
     #     # This block fixes skips that originate from before this file.
-- 
2.43.0


From c96666762c0895493446bfba6a765a96e55af36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 50/73] fix: crop_ensembles up to the end of the file

---
 dolfyn/io/nortek2_lib.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index a7e8811..5fb3519 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -296,11 +296,13 @@ def crop_ensembles(infile, outfile, range):
         with open(_abspath(outfile), 'wb') as fout:
             fout.write(fin.read(idx['pos'][0]))
             i0 = np.nonzero(idx['ens'] == range[0])[0][0]
-            ie = np.nonzero(idx['ens'] == range[1])[0][0]
-            pos = idx['pos'][i0]
-            nbyte = idx['pos'][ie] - pos
+            ie = np.nonzero(idx['ens'] == range[1])[0]
+            pos = int(idx['pos'][i0])
             fin.seek(pos, 0)
-            fout.write(fin.read(nbyte))
+            if len(ie):
+                fout.write(fin.read(int(idx['pos'][ie[0]]) - pos))
+            else:  # up to the end of the file
+                fout.write(fin.read())
 
 
 class _BitIndexer():
-- 
2.43.0


From 60b001727bbaca7d8ec27b516328df01fae2b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 51/73] fix: layout and sign of the Signature raw altimeter
 samples

---
 dolfyn/io/nortek2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 616fe44..823fc8c 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -328,14 +328,14 @@ class _Ad2cpReader():
                     rdr._shape[tmp_idx].append(sz)
                     rdr._N[tmp_idx] = sz
                     rdr._struct = defs.Struct('<' + rdr.format)
-                    rdr.nbyte = calcsize(rdr.format)
+                    rdr.nbyte = rdr._struct.size
                     rdr._cs_struct = defs.Struct(
                         '<' + '{}H'.format(int(rdr.nbyte // 2)))
                     # Initialize the array
                     outdat[id]['samp_alt'] = defs._nans(
                         [rdr._N[tmp_idx],
                          len(outdat[id]['samp_alt'])],
-                        dtype=np.uint16)
+                        dtype=np.int16)
                 else:
                     if sz != rdr._N[tmp_idx]:
                         raise Exception(
-- 
2.43.0


From 841986b13176c6fc0f005e21ef8b9be8994bfe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 52/73] fix: orientation and times of Signature averaging data

---
 dolfyn/io/nortek2.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 823fc8c..e5a67a0 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -99,8 +99,13 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
     ds = _set_coords(ds, ref_frame=ds.coord_sys)
 
     if 'orientmat' not in ds:
+        tg = '' if 'heading' in ds else '_avg'
         ds['orientmat'] = _euler2orient(
-            ds['time'], ds['heading'], ds['pitch'], ds['roll'])
+            ds['time'], ds['heading' + tg], ds['pitch' + tg], ds['roll' + tg])
+    if rdr._dp and 'heading_avg' in ds and 'orientmat_avg' not in ds:
+        ds['orientmat_avg'] = _euler2orient(
+            ds['time_avg'].values, ds['heading_avg'], ds['pitch_avg'],
+            ds['roll_avg']).rename(time='time_avg')
 
     if declin is not None:
         set_declination(ds, declin, inplace=True)
@@ -631,7 +636,7 @@ def _reduce(data):
         dc['range_avg'] = ((np.arange(dv['vel_avg'].shape[1])+1) *
                            da['cell_size_avg'] +
                            da['blank_dist_avg'])
-        if 'orientmat' not in dv:
+        if 'orientmat' not in dv and 'orientmat_avg' in dv:
             dv['orientmat'] = dv.pop('orientmat_avg')
         tmat = da['filehead_config']['XFAVG']
         da['fs'] = da['filehead_config']['PLAN']['MIAVG']
@@ -685,7 +690,7 @@ def split_dp_datasets(ds):
 
     other_coords = []
     for key, val in t_dict.items():
-        if val != t_dict['time']:
+        if val != t_dict['time'] or key.endswith('_avg'):
             if key.endswith('altraw'):
                 # altraw goes with burst, altraw_avg goes with avg
                 continue
-- 
2.43.0


From 02bb88a261e9741ffd67e5750c8d7c48b939e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 53/73] fix: direction labels of a 3-beam Signature

---
 dolfyn/rotate/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolfyn/rotate/base.py b/dolfyn/rotate/base.py
index 87fe1d2..25fd641 100644
--- a/dolfyn/rotate/base.py
+++ b/dolfyn/rotate/base.py
@@ -57,12 +57,13 @@ def _set_coords(ds, ref_frame, forced=False):
         princ = ['streamwise', 'x-stream', 'vert', 'err']
 
     elif 'nortek' in make:
-        if 'signature' in make or 'ad2cp' in make or 'vectrino' in make:
+        if ('signature' in make or 'ad2cp' in make or 'vectrino' in make) \
+                and len(beam) != 3:
             inst = ['X', 'Y', 'Z1', 'Z2']
             earth = ['E', 'N', 'U1', 'U2']
             princ = ['streamwise', 'x-stream', 'vert1', 'vert2']
 
-        else:  # AWAC or Vector
+        else:  # AWAC, Vector or three beams
             inst = XYZ
             earth = ENU
             princ = principal
-- 
2.43.0


From 01d2e592abe2cc99623c3e204762fb804dec23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:52 +0000
Subject: [PATCH 54/73] fix: epoch2dt64 was a second late before 1970

---
 dolfyn/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/time.py b/dolfyn/time.py
index 29b0b2a..8983b46 100644
--- a/dolfyn/time.py
+++ b/dolfyn/time.py
@@ -26,7 +26,7 @@ def epoch2dt64(ep_time):
     """
 
     # assumes t0=1970-01-01 00:00:00
-    out = np.array(ep_time.astype('int')).astype('datetime64[s]')
+    out = np.array(np.floor(ep_time).astype('int')).astype('datetime64[s]')
     out = out + ((ep_time % 1) * 1e9).astype('timedelta64[ns]')
     return out
 
-- 
2.43.0


From 20924aa967d63c5f1792f0eb2db924a4a60af20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 55/73] fix: saving a dataset changed the one in memory

---
 dolfyn/io/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index caeca76..1816ee1 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -164,6 +164,9 @@ def save(ds, filename,
 
     filename = _check_file_ext(filename, 'nc')
 
+    # The dataset in memory is not changed
+    ds = ds.copy()
+
     # Handling complex values for netCDF4
     ds.attrs['complex_vars'] = []
     for var in ds.data_vars:
-- 
2.43.0


From f82e55df535925d8160f0a921b1bef5fe8c8d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 56/73] fix: save ignored the encodings it was given

---
 dolfyn/io/api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 1816ee1..463bbec 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -183,8 +183,6 @@ def save(ds, filename,
 
     # Write variable encoding
     enc = dict()
-    if 'encoding' in kwargs:
-        enc.update(kwargs['encoding'])
     for ky in ds.variables:
         # Save prior encoding
         enc[ky] = ds[ky].encoding
@@ -199,6 +197,10 @@ def save(ds, filename,
                 continue
             enc[ky].update(dict(zlib=True, complevel=1))
 
+    # The values in 'encoding' take precedence
+    for ky in kwargs.get('encoding', {}):
+        enc.setdefault(ky, {}).update(kwargs['encoding'][ky])
+
     kwargs['encoding'] = enc
 
     # Fix encoding on datetime64 variables.
-- 
2.43.0


From 1159af960780fc6932b308eb58e8c60c59536b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 57/73] fix: load failed on complex variables with names of one
 letter

---
 dolfyn/io/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 463bbec..a188adf 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -243,7 +243,7 @@ def load(filename):
     # Rejoin complex numbers
     if hasattr(ds, 'complex_vars'):
         if len(ds.complex_vars):
-            if len(ds.complex_vars[0]) == 1:
+            if isinstance(ds.complex_vars, str):
                 ds.attrs['complex_vars'] = [ds.complex_vars]
             for var in ds.complex_vars:
                 ds[var] = ds[var + '_real'] + ds[var + '_imag'] * 1j
-- 
2.43.0


From 75a21d99615ef9f5ccc76735eeabd1a01c7c5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 58/73] fix: load dropped the attributes of complex variables

---
 dolfyn/io/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index a188adf..cc2a822 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -246,7 +246,9 @@ def load(filename):
             if isinstance(ds.complex_vars, str):
                 ds.attrs['complex_vars'] = [ds.complex_vars]
             for var in ds.complex_vars:
+                attrs = ds[var + '_real'].attrs
                 ds[var] = ds[var + '_real'] + ds[var + '_imag'] * 1j
+                ds[var].attrs = attrs
                 ds = ds.drop_vars([var + '_real', var + '_imag'])
 
         ds.attrs.pop('complex_vars')
-- 
2.43.0


From 34a7115e2317b03c0b42e1a292c25d28ab579648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 59/73] fix: saving as MAT changed the dataset in memory

---
 dolfyn/io/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index cc2a822..2875f04 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -289,6 +289,9 @@ def save_mat(ds, filename, datenum=True):
 
     filename = _check_file_ext(filename, 'mat')
 
+    # The dataset in memory is not changed
+    ds = ds.copy()
+
     # Convert time to datenum
     t_coords = [t for t in ds.coords if np.issubdtype(
         ds[t].dtype, np.datetime64)]
-- 
2.43.0


From 741ae2db3e9ca12913ac8e7f72b8e7b6474a9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 60/73] fix: fifth-beam profiles were lost in load_mat

---
 dolfyn/io/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 3616f78..e81a135 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -208,6 +208,9 @@ def _create_dataset(data):
                         dim0 = 'dir'
                     ds_dict[key] = {"dims": (dim0, "time" + tg), "data": data['data_vars'][key]}
 
+                elif key in ['vel_b5', 'amp_b5', 'corr_b5']:
+                    ds_dict[key] = {"dims": ("range_b5", "time_b5"), "data": data['data_vars'][key]}
+
                 # ADCP IMU data
                 elif shp[0] == 3:
                     if not any(val in key for val in tag):
@@ -223,9 +226,6 @@ def _create_dataset(data):
 
                     ds_dict[key] = {"dims": ("dirIMU", "time" + tg), "data": data['data_vars'][key]}
 
-                elif 'b5' in tg:
-                    ds_dict[key] = {"dims": ("range_b5", "time_b5"), "data": data['data_vars'][key]}
-
             elif len(shp) == 3:  # 3D variables
                 if 'vel' in key:
                     dim0 = 'dir'
-- 
2.43.0


From c30aa9130c6cf21648cb7717f6b9c9588b83fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 61/73] fix: the name of a userdata file was ignored

---
 dolfyn/io/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index e81a135..733623f 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -41,15 +41,14 @@ def _get_filetype(fname):
 
 def _find_userdata(filename, userdata=True):
     # This function finds the file to read
-    if userdata:
+    if isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
+        return _read_userdata(userdata)
+    elif userdata:
         for basefile in [filename.rsplit('.', 1)[0],
                          filename]:
             jsonfile = basefile + '.userdata.json'
             if os.path.isfile(jsonfile):
                 return _read_userdata(jsonfile)
-
-    elif isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
-        return _read_userdata(userdata)
     return {}
 
 
-- 
2.43.0


From 6eb179a7d8aa8a89e9b13507461ac592e4348303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 62/73] fix: good pings were dropped for missing ones before
 them

---
 dolfyn/io/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 733623f..0eb0f3d 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -98,7 +98,8 @@ def _handle_nan(data):
                 elif len(shp) == 2:
                     if any(np.isnan(data['data_vars'][key][-1])):
                         nan += np.isnan(data['data_vars'][key][-1])
-    trailing = np.cumsum(nan)[-1]
+    # Only those at the end of the record
+    trailing = np.cumprod(nan[::-1]).sum()
 
     if trailing > 0:
         data['coords']['time'] = data['coords']['time'][:-trailing]
-- 
2.43.0


From 94af71824c8d149367dddfea7a8ad3e74c9aec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 63/73] fix: the beam matrix was cropped in files of three
 pings

---
 dolfyn/io/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 0eb0f3d..d2637fd 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -104,7 +104,7 @@ def _handle_nan(data):
     if trailing > 0:
         data['coords']['time'] = data['coords']['time'][:-trailing]
         for key in data['data_vars']:
-            if data['data_vars'][key].shape[-1] == l:
+            if 'inst' not in key and data['data_vars'][key].shape[-1] == l:
                 data['data_vars'][key] = data['data_vars'][key][..., :-trailing]
 
     return data
-- 
2.43.0


From c5897a4017f5267f26a82ce0a7c8b63f05db44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:52 +0000
Subject: [PATCH 64/73] fix: the duty cycle check raised TypeError for a
 non-integer interval

---
 dolfyn/adv/motion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adv/motion.py b/dolfyn/adv/motion.py
index 7d23309..457094e 100644
--- a/dolfyn/adv/motion.py
+++ b/dolfyn/adv/motion.py
@@ -96,7 +96,8 @@ class CalcMotion():
         # duty cycle interval in seconds
         interval = self.ds.attrs.get('duty_cycle_interval')
         actual_interval = (
-            self.ds.time[n_burst:].values - self.ds.time[:-n_burst].values)/1e9
+            self.ds.time[n_burst:].values -
+            self.ds.time[:-n_burst].values) / np.timedelta64(1, 's')
 
         rng = actual_interval.max() - actual_interval.min()
         mean = actual_interval.mean()
-- 
2.43.0


From c0d8b14e1fa2a38526f222c7cc5f36dfb97ee2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 65/73] fix: detrending left a trend in series with missing
 values

---
 dolfyn/tools/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index a6967da..72d808e 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -47,6 +47,8 @@ def detrend(arr, axis=-1, in_place=False):
     sz = np.ones(arr.ndim, dtype=int)
     sz[axis] = arr.shape[axis]
     x = np.arange(sz[axis], dtype=np.float_).reshape(sz)
+    # The samples that are missing have no part in the line
+    x = np.where(np.isnan(arr), np.nan, x)
     x -= np.nanmean(x, axis=axis, keepdims=True)
     arr -= np.nanmean(arr, axis=axis, keepdims=True)
     b = np.nanmean((x * arr), axis=axis, keepdims=True) / \
-- 
2.43.0


From 89d8975bcefaf1ec972dadacc9c3921b5e3e123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:15 +0000
Subject: [PATCH 66/73] fix: coherent turbulence energy of velocity profiles

---
 dolfyn/velocity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 12e5afd..f16ead6 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -363,8 +363,8 @@ class Velocity():
 
         return xr.DataArray(
             E_coh.astype('float32'),
-            coords={'time': self.ds['stress_vec'].time},
-            dims=['time'],
+            coords=E_coh.coords,
+            dims=E_coh.dims,
             attrs={'units': self.ds['stress_vec'].units,
                    'long_name': 'Coherent Turbulence Energy'})
 
-- 
2.43.0


From 5738376622acd453697c48d526e8dac99abf1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:15 +0000
Subject: [PATCH 67/73] fix: TKE is missing, not zero, where its components are
 missing

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index f16ead6..74b635f 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -403,7 +403,7 @@ class Velocity():
     def tke(self,):
         """Turbulent kinetic energy (sum of the three components)
         """
-        tke = self.ds['tke_vec'].sum('tke') / 2
+        tke = self.ds['tke_vec'].sum('tke', skipna=False) / 2
         tke.name = 'TKE'
         tke.attrs['units'] = self.ds['tke_vec'].units
         tke.attrs['long_name'] = 'TKE'
-- 
2.43.0


From 8eea9287cb28063203439079550b4b450315a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:23 +0000
Subject: [PATCH 68/73] fix: filling with ensemble means keeps the shape of a
 single row

---
 dolfyn/adv/clean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adv/clean.py b/dolfyn/adv/clean.py
index dacb9f7..8eff10f 100644
--- a/dolfyn/adv/clean.py
+++ b/dolfyn/adv/clean.py
@@ -177,9 +177,9 @@ def fill_nan_ensemble_mean(u, mask, fs, window):
         vel[i] = np.ravel(vel_filled[i], 'C')
 
     if diff:  # Trim off the extra means
-        u.values = np.squeeze(vel[:, :-extra_nans])
+        u.values = vel[:, :-extra_nans].reshape(u.shape)
     else:
-        u.values = np.squeeze(vel)
+        u.values = vel.reshape(u.shape)
 
     return u
 
-- 
2.43.0


From 64bcfda0197c54b8c07771047b706d8cbdeb6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:33 +0000
Subject: [PATCH 69/73] fix: interpolate Vector headings across north the short
 way round

---
 dolfyn/io/nortek.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index a7f7dca..a176211 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -895,7 +895,12 @@ class _NortekReader():
             dv['orientation_down'][iburst] = tmpd.astype('bool')
         tbx.interpgaps(dv['batt'], t)
         tbx.interpgaps(dv['c_sound'], t)
-        tbx.interpgaps(dv['heading'], t)
+        # Between two records the heading turns the short way round
+        gd = ~np.isnan(dv['heading'])
+        hdg = dv['heading'].copy()
+        hdg[gd] = np.unwrap(hdg[gd], period=360)
+        tbx.interpgaps(hdg, t)
+        dv['heading'][~gd] = hdg[~gd] % 360
         tbx.interpgaps(dv['pitch'], t)
         tbx.interpgaps(dv['roll'], t)
         tbx.interpgaps(dv['temp'], t)
-- 
2.43.0


From 7245d74461ee580502b96bca3e903afe7327bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:41 +0000
Subject: [PATCH 70/73] fix: accept a noise level per bin when there are more
 bins than cells

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 74b635f..5e65892 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -1023,7 +1023,7 @@ class VelBinner(TimeBinner):
         else:
             # Subtract noise
             if noise is not None:
-                if np.shape(noise) > np.shape(vel):
+                if np.ndim(noise) > np.ndim(vel):
                     raise Exception(
                         'Noise should have same or fewer dimensions as velocity')
                 out -= noise ** 2
-- 
2.43.0


From 29a809b8f9f7cc83f5194f553febe4186a3c5ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:41 +0000
Subject: [PATCH 71/73] fix: an RDI ensemble without navigation data costs only
 itself

---
 dolfyn/io/rdi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 290440d..ec6b9d7 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -469,6 +469,7 @@ class _RDIReader():
                 if self._debug_level >= 1:
                     logging.info(
                         'Searching for vmdas nav data. Going to next ensemble')
+                pos = fd.tell()
                 self.search_buffer()
                 # now go back to where vmdas would be:
                 fd.seek(-98, 1)
@@ -478,6 +479,9 @@ class _RDIReader():
                         logging.info(f'Found {id:04d}')
                     if id == 8192:
                         self.read_dat(id)
+                if id != 8192:
+                    # No nav data in this ensemble: carry on where it ended
+                    fd.seek(pos, 0)
             readbytes = fd.tell() - startpos
             offset = hdr['nbyte'] + 2 - readbytes
             self.check_offset(offset, readbytes)
-- 
2.43.0


From fce3aa2c2c58beddf392d76e98814b2a0e3081a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:41 +0000
Subject: [PATCH 72/73] fix: skip a garbled NMEA message instead of the data
 after it

---
 dolfyn/io/rdi.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index ec6b9d7..293d1a5 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1154,7 +1154,9 @@ class _RDIReader():
                     if self._debug_level >= 1:
                         logging.warning(f'Invalid GGA string found in ensemble {k},'
                                         ' skipping...')
-                    return 'FAIL'
+                    self.f.seek(sz - 6, 1)
+                    self._nbyte = self.f.tell() - startpos + 2
+                    return
                 self.f.seek(1, 1)
                 gga_time = self.f.reads(9)
                 time = tmlib.timedelta(hours=int(gga_time[0:2]),
@@ -1201,7 +1203,9 @@ class _RDIReader():
                     if self._debug_level >= 1:
                         logging.warning(f'Invalid VTG string found in ensemble {k},'
                                         ' skipping...')
-                    return 'FAIL'
+                    self.f.seek(sz - 6, 1)
+                    self._nbyte = self.f.tell() - startpos + 2
+                    return
                 self.f.seek(1, 1)
                 true_track = self.f.read_float(1)
                 t = self.f.reads(1)  # 'T'
@@ -1231,7 +1235,9 @@ class _RDIReader():
                     if self._debug_level >= 1:
                         logging.warning(f'Invalid DBT string found in ensemble {k},'
                                         ' skipping...')
-                    return 'FAIL'
+                    self.f.seek(sz - 6, 1)
+                    self._nbyte = self.f.tell() - startpos + 2
+                    return
                 self.f.seek(1, 1)
                 depth_ft = self.f.read_float(1)
                 ft = self.f.reads(1)  # 'f'
@@ -1255,7 +1261,9 @@ class _RDIReader():
                     if self._debug_level >= 1:
                         logging.warning(f'Invalid HDT string found in ensemble {k},'
                                         ' skipping...')
-                    return 'FAIL'
+                    self.f.seek(sz - 6, 1)
+                    self._nbyte = self.f.tell() - startpos + 2
+                    return
                 self.f.seek(1, 1)
                 ens.heading_gps[k] = self.f.read_f64(1)
                 tt = self.f.reads(1)
-- 
2.43.0


From 1dd80941f9ea98b0ed14280fe341c2f7afcefc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:41 +0000
Subject: [PATCH 73/73] fix: RDI data an ensemble lacks are missing, not the
 previous values

---
 dolfyn/io/rdi.py      | 2 ++
 dolfyn/io/rdi_defs.py | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 293d1a5..df955fc 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -424,8 +424,10 @@ class _RDIReader():
     def read_buffer(self,):
         fd = self.f
         self.ensemble.k = -1  # so that k+=1 gives 0 on the first loop.
+        self.ensemble.reset()  # nothing is carried over to this ensemble
         if self._bb:
             self.ensembleBB.k = -1  # so that k+=1 gives 0 on the first loop.
+            self.ensembleBB.reset()
         self.print_progress()
         hdr = self.hdr
         while self.ensemble.k < self.ensemble.n_avg - 1:
diff --git a/dolfyn/io/rdi_defs.py b/dolfyn/io/rdi_defs.py
index 147320e..0da5907 100644
--- a/dolfyn/io/rdi_defs.py
+++ b/dolfyn/io/rdi_defs.py
@@ -184,6 +184,12 @@ class _ensemble():
             setattr(self, nm,
                     np.zeros(_get_size(nm, n=navg, ncell=n_cells),
                              dtype=data_defs[nm][2]))
+        self.reset()
+
+    def reset(self,):
+        for nm in data_defs:
+            self[nm][:] = (np.NaN if data_defs[nm][2].startswith('float')
+                           else 0)
 
     def clean_data(self,):
         for nm in ("vel", "vel_bt", "vel_sl"):
-- 
2.43.0

