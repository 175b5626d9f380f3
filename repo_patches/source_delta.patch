From 45aedb6488f332222cead486d7483198362f8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 01/54] fix: replace numpy aliases removed in numpy 2 (np.int,
 np.float, np.NaN)

---
 misfit/fit/fit_core.py         |  6 ++---
 misfit/fit/fit_io.py           |  2 +-
 misfit/general/galaxy_utils.py | 46 +++++++++++++++++-----------------
 misfit/model/aper_model.py     |  2 +-
 misfit/model/kin_functions.py  |  2 +-
 misfit/plot/plot_bestfit.py    |  2 +-
 misfit/plot/plot_image_slit.py |  8 +++---
 misfit/plot/plot_trace.py      |  4 +--
 8 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1d3016f..fbc399f 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -195,7 +195,7 @@ def run_mcmc(fitEmis2D, fitEmis2D_fit=None):
         and then delete attributes
     """
     print("fitting with emcee version: {}".format(emcee.__version__))
-    if np.int(emcee.__version__[0]) >= 3:
+    if int(emcee.__version__[0]) >= 3:
         fitEmis2D = _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
     else:
         fitEmis2D = _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
@@ -216,7 +216,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
@@ -515,7 +515,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index c73ba99..f95a45e 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -50,7 +50,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
         try:
             acor_time = sampler.get_autocorr_time(self, low=5, c=10)
         except:
-            acor_time = np.NaN
+            acor_time = np.nan
 
     try:
         nDim = sampler.ndim
diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 0c95bcd..1669209 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -891,7 +891,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                             args=(xx, sp_arr, err_arr))
 
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         if (m0 > (len(snr_arr) -1)):
             m0_closest = len(snr_arr) -1
         elif (m0 < 0):
@@ -902,8 +902,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0_closest]
         if dither:
-            m1 = np.int(np.round(result.params['mu_l'].value))
-            m2 = np.int(np.round(result.params['mu_r'].value))
+            m1 = int(np.round(result.params['mu_l'].value))
+            m2 = int(np.round(result.params['mu_r'].value))
 
         if debug:
             print(ypos)
@@ -931,9 +931,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
             sp_ind_neg2 = m2
 
             diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-            cut = np.int(np.ceil(diff/2.))
+            cut = int(np.ceil(diff/2.))
         else:
-            cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+            cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
         m_min = m0 - cut
         m_max = m0 + cut
@@ -950,7 +950,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 print("m0, ypos=", m0, ypos)
 
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
 
                 params = lmfit.Parameters()
 
@@ -974,7 +974,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                 args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value))
+                m0 = int(np.round(result.params['mu'].value))
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -984,8 +984,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value - m0
                 m0_peak_snr = snr_arr[m0_closest]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value))
-                    m2 = np.int(np.round(result.params['mu_r'].value))
+                    m1 = int(np.round(result.params['mu_l'].value))
+                    m2 = int(np.round(result.params['mu_r'].value))
 
                 if debug:
                     print(ypos)
@@ -1010,9 +1010,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
 
                 m_min = m0 - cut
@@ -1071,7 +1071,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                     args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value)) + trimval
+                m0 = int(np.round(result.params['mu'].value)) + trimval
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -1081,8 +1081,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value + trimval - m0
                 m0_peak_snr = snr_arr[m0_closest-trimval]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                    m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                    m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                    m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
                 if debug:
                     print(ypos)
@@ -1105,9 +1105,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
                 m_min = m0 - cut
                 m_max = m0 + cut
@@ -1147,12 +1147,12 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 result = lmfit.minimize(utils.gaus_residual, params,
                             args=(xx, sp_arr, err_arr))
 
-            m0 = np.int(np.round(result.params['mu'].value)) + trimval
+            m0 = int(np.round(result.params['mu'].value)) + trimval
             m0_shift_fit = result.params['mu'].value + trimval - m0
             m0_peak_snr = snr_arr[m0-trimval]
             if dither:
-                m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
             if debug:
                 print(ypos            )
@@ -1175,9 +1175,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 sp_ind_neg2 = m2
 
                 diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                cut = np.int(np.ceil(diff/2.))
+                cut = int(np.ceil(diff/2.))
             else:
-                cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
             m_min = m0 - cut
             m_max = m0 + cut
@@ -1195,7 +1195,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         result = lmfit.minimize(utils.gaus_residual, params,
                         args=(xx, sp_arr, err_arr))
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0]
 
@@ -1225,7 +1225,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         if ypos is not None:
             if ((np.abs(ypos-m0) > 2.) & (not skip_check)):
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
                 m0_shift_fit = ypos - m0
                 m0_peak_snr = snr_arr[m0]
 
diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index e36093b..09574f2 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -750,7 +750,7 @@ class AperModel2D(object):
     def check_do_upsample_wave(self):
         if (np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value) :
             # Create new array that has finer sampling:
-            self.delt_wave = self.delt_wave_real / np.float(self.adaptive_upsample_factor)
+            self.delt_wave = self.delt_wave_real / float(self.adaptive_upsample_factor)
 
             nwmin = self.wave_arr.min() - 0.5*(self.delt_wave_real - self.delt_wave)
             nwmax = self.wave_arr.max() + 0.5*(self.delt_wave_real - self.delt_wave)
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 5dbb9d1..9c2cd50 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -290,7 +290,7 @@ def check_slit_illum(xarr, wh_in_slit_x, A_tmp, mu_y, FWHM_arcsec, tot_slit_widt
     if modified_bounds:
         # Determine the new mu:
         model = A_tmp*gaus_from_fwhm(xarr, FWHM_arcsec, mu_y)
-        model_mask = np.zeros(len(xarr))*np.NaN
+        model_mask = np.zeros(len(xarr))*np.nan
         model_mask[wh_in_slit_x] = 1.
         model_orig = model.copy()
         model *= model_mask
diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index c264bfd..e5ded5f 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -56,7 +56,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     
     """
     sh_spec_trim = np.shape(fitEmis2D.galaxy.spec2D.flux)
-    sp_rat = sh_spec_trim[1]/np.float(sh_spec_trim[0])  # width/height
+    sp_rat = sh_spec_trim[1]/float(sh_spec_trim[0])  # width/height
 
 
     fig = plt.figure()
diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index d1c7803..0fd1f63 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -163,7 +163,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         yarc_orig = yarr_orig*instrument_img.pixscale
 
         # Output pix/arc array:
-        n_round = np.int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
+        n_round = int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
 
         ### New:
         yarr_new = np.linspace(0, n_round, num=n_round, endpoint=False)
@@ -250,8 +250,8 @@ def plot_image_slit(galaxy=None, instrument=None,
 
     #######################################
     # Scale based on noise levels:
-    xlim_round = np.array([np.int(np.round(xlim[0])), np.int(np.round(xlim[1]))])
-    ylim_round = np.array([np.int(np.round(ylim[0])), np.int(np.round(ylim[1]))])
+    xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
+    ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
     tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
     tmp_trim = tmp_trim.flatten()
@@ -259,7 +259,7 @@ def plot_image_slit(galaxy=None, instrument=None,
     range_spec = np.abs(range_spec)
     range_spec.sort()
     # Only consider the lowest 50\% *abs* points:
-    range_spec = range_spec[0:np.int(np.ceil(len(range_spec)/2.))]
+    range_spec = range_spec[0:int(np.ceil(len(range_spec)/2.))]
     median_err = np.median(range_spec)
 
     ext = 3.
diff --git a/misfit/plot/plot_trace.py b/misfit/plot/plot_trace.py
index 1fe2433..6838f2c 100644
--- a/misfit/plot/plot_trace.py
+++ b/misfit/plot/plot_trace.py
@@ -45,7 +45,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
 
     nWalkers = sampler_dict['nWalkers']
 
-    alpha = max(0.01, 1./np.float(nWalkers))
+    alpha = max(0.01, 1./float(nWalkers))
 
 
     # Define random color inds for tracking some walkers:
@@ -56,7 +56,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
     trace_inds = np.random.randint(0,nWalkers, size=nTraceWalkers)
     trace_colors = []
     for i in range(nTraceWalkers):
-        trace_colors.append(cmap(1./np.float(nTraceWalkers)*i))
+        trace_colors.append(cmap(1./float(nTraceWalkers)*i))
 
     norm_inds = np.setdiff1d(range(nWalkers), trace_inds)
 
-- 
2.43.0


From f5003126a5b24df27b3193deba2e3ba114daf1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 02/54] fix: AperModel2D subpixel rows are spaced by
 pixscale/nSubpixels and centered on the pixels

---
 misfit/model/aper_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 09574f2..4f2fc0a 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -706,8 +706,9 @@ class AperModel2D(object):
         self.z_arr = np.linspace(-(self.n_pix_z/2.-0.5)*self.delt_z,
                             (self.n_pix_z/2.-0.5)*self.delt_z, num=self.nZ)
 
-        self.y_arr = np.linspace(-(self.padY-0.5)*self.delt_y,
-                ((self.n_pix_y_whole-1)*self.nSubpixels + self.padY-0.5)*self.delt_y,
+        # Subpixel centers, relative to the center of the first (whole) pixel:
+        self.y_arr = np.linspace(-(self.padY+0.5*(self.nSubpixels-1))*self.delt_y,
+                ((self.n_pix_y_whole-1)*self.nSubpixels + self.padY+0.5*(self.nSubpixels-1))*self.delt_y,
                 num=self.nY)
 
         self.z = self.theta[-1]
-- 
2.43.0


From 8a110747e3f895e8c9d49ef300b888d50cdd61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 03/54] fix: AperModel2D PSF kernel is centered, so an
 off-center object is not displaced

---
 misfit/model/aper_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 4f2fc0a..224cefe 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -598,10 +598,12 @@ class AperModel2D(object):
         ## Convolve the spectra cube with the PSF:
         ## Trim x_arr, y_arr so you're only making a convolution kernal for +- FWHM
         #       x_arr, y_arr are in *ARCSECONDS*
-        xc = np.average(self.x_arr)
-        yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        # Offsets are *CENTERED*, with an odd number of samples in each direction,
+        #       so the kernel doesn't shift the object.
+        nx_trim = int(np.floor(self.instrument.PSF.PSF_FWHM/self.delt_x + 1.e-9))
+        ny_trim = int(np.floor(self.instrument.PSF.PSF_FWHM/self.delt_y + 1.e-9))
+        x_arr_trim = np.arange(-nx_trim, nx_trim+1)*self.delt_x
+        y_arr_trim = np.arange(-ny_trim, ny_trim+1)*self.delt_y
 
         #x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         #y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
-- 
2.43.0


From 05aae86b14b33acad9140146e7894793b67d7b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 04/54] fix: AperModel1DRot PSF kernel is centered for objects
 offset in the slit

---
 misfit/model/aper_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 224cefe..2ee5e1d 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -264,8 +264,8 @@ class AperModel1DRot(AperModel1DBase):
         # x_arr, y_arr are in *ARCSECONDS*
         xc = np.average(self.x_arr)
         yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]-xc
+        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]-yc
 
         # x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
-- 
2.43.0


From d7bba33c91b00a01f249d583c45dbf898bef2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 05/54] fix: averaging (not summing) the finer wavelength
 samples keeps the model flux for low dispersions

---
 misfit/model/aper_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 2ee5e1d..82c654d 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -887,8 +887,10 @@ class AperModel2D(object):
 
 
     def downsample_to_real_wave(self):
+        # Spectra are flux densities: average over the finer wavelength samples.
+        n_upsample = self.nWave/float(self.nWave_real)
         self.model_out = kfuncs.rebin(self.model_out,
-                            self.nWave_real, self.n_pix_y_whole)
+                            self.nWave_real, self.model_out.shape[1])/n_upsample
         # Reset other parameters to original values:
         self.wave_arr = self.wave_arr_real.copy()
         self.nWave = self.nWave_real
-- 
2.43.0


From a4cbff27faa83d5d77b56162b76746e0de62ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 06/54] fix: AperModel2D.update_model uses the new m0_shift and
 z, and its own PSF kernel

---
 misfit/model/aper_model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 82c654d..3fb09a6 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -619,6 +619,7 @@ class AperModel2D(object):
         kern3D = np.zeros(shape=(1, conv_stamp.shape[0], conv_stamp.shape[1],))
         kern3D[0, :, :] = conv_stamp
 
+        self.conv_stamp = kern3D
         self.instrument.PSF.set_conv_stamp(kern3D)
 
     def make_model(self):
@@ -630,6 +631,16 @@ class AperModel2D(object):
     def update_model(self, **kwargs):
         self.setAttr(**kwargs)
 
+        # The model grid depends on m0_shift and z: setup again if either changed.
+        if (self.theta[-1] != self.z) or \
+                (self.galaxy.spec2D.m0 + self.theta[-2] != self.m0_fit):
+            self.delta_position_velspace = None
+            self.inst_disp_wave = None
+            self.setup_calcs()
+
+        # The instrument may be shared: make sure it's the kernel for this grid.
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.do_model_calcs()
 
     def do_model_calcs(self):
-- 
2.43.0


From c233f5b4ba11bd246e54dc67b5fcff7599c83f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 07/54] fix: zero-dispersion collapse gives flux densities, and
 works in velocity space

---
 misfit/model/kin_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 9c2cd50..3515696 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -124,8 +124,9 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
 
             I_Vxy_oneline = np.sum(I_conv, axis=1)*delt_z
         else:
-            I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr, nWave,
-                            nZ, nY, nX, delt_z, delt_wave, lam0)
+            # wave_arr is the velocity axis: lam0=c gives c+V
+            I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr+c_kms, nWave,
+                            nZ, nY, nX, delt_z, delt_wave, c_kms)
 
         I_Vxy += I_Vxy_oneline
 
@@ -159,7 +160,7 @@ def I_simple_collapse(I_wide, V_wide, wave_arr,
 
                 # Force it all into the closest pixel:
                 wh_closest = np.argmin(lam_diff)
-                I_Vxy[wh_closest,j,k] += I*delt_z
+                I_Vxy[wh_closest,j,k] += I*delt_z/delt_wave
 
 
     return I_Vxy
-- 
2.43.0


From ca8c52cd5fbea38b96f42c68fb4770f645a152ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 08/54] fix: models don't share (and modify) mutable default
 arguments or the input theta

---
 misfit/mock/generate_basic.py | 10 ++++++++--
 misfit/model/kin_model.py     | 22 ++++++++++++++++------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 0ada591..d12c463 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -42,10 +42,16 @@ def generate_mock_basis(z=None,
         pad_factor=0.5,
         do_position_wave_shift=False,
         do_inst_res_conv_effective=False,
-        kinProfile = KinProfileFiducial(),
-        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
+        kinProfile = None,
+        intensityProfile = None,
         debug=False, **kwargs):
 
+    # Defaults: made for each call, as they are kept (and modified) by the model.
+    if kinProfile is None:
+        kinProfile = KinProfileFiducial()
+    if intensityProfile is None:
+        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+
     # Enforce min slit-length
     if slit_length < nymin*pixscale:
         slit_length = nymin*pixscale
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index cc87e12..72edf5b 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -60,15 +60,25 @@ class KinModel2D(object):
     Handles variable + fixed parameters, talks to the Aper2DModel class,
     creates scaled model to data.
     """
-    def __init__(self, galaxy, thetaSettings=Theta2DSettingsFiducial(),
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions = KinModel2DOptions(),
+    def __init__(self, galaxy, thetaSettings=None,
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     do_position_wave_shift=False,
                     do_inst_res_conv_effective=False, **kwargs):
+        # Defaults: made for each instance, as they are modified by the model.
+        if thetaSettings is None:
+            thetaSettings = Theta2DSettingsFiducial()
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+
         # Galaxy()
-        # Unpack thetaSettings:
-        self.theta = thetaSettings.theta
+        # Unpack thetaSettings: don't modify the input theta array
+        self.theta = copy.copy(thetaSettings.theta)
         self.theta_vary = thetaSettings.theta_vary
         self.theta_names = thetaSettings.theta_names
         self.theta_names_nice = thetaSettings.theta_names_nice
-- 
2.43.0


From d97dce42e68b1c05e1308d468732e567f4620aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 09/54] fix: FitEmissionLines2D instances don't share mutable
 default arguments

---
 misfit/fit/fit2D.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 4e913e6..ab04616 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -142,17 +142,29 @@ class FitEmissionLines2D(object):
     def __init__(self, galaxy=None, instrument=None, instrument_img=None,
                     linegroup_name = None, linenames_arr = None,
                     restwave_arr = None, flux_ratio_arr = None,
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions=KinModel2DOptions(),
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     thetaPrior=None,
                     thetaSettings=None,
-                    mcmcOptions = MCMC2DOptions(),
+                    mcmcOptions = None,
                     theta_linked_posteriors = None,
-                    mcmc_results = MCMCResults(),
+                    mcmc_results = None,
                     usetex=True,
                     **kwargs):
 
+        # Defaults: made for each instance, as they are modified during the fitting.
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+        if mcmcOptions is None:
+            mcmcOptions = MCMC2DOptions()
+        if mcmc_results is None:
+            mcmc_results = MCMCResults()
+
         self.galaxy = galaxy
         self.instrument = instrument
         self.instrument_img = instrument_img
-- 
2.43.0


From 1c0cdab2abfa8ec929d492679255e05bb3fefafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 10/54] fix: masked pixels with non-finite flux or error don't
 affect the likelihood or chisq

---
 misfit/model/kin_model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 72edf5b..1eec049 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -357,6 +357,10 @@ def _model_llike(kinModel, model=None):
     #         ( ((((kinModel.aperModel.galaxy.spec2D.flux-model))/\
     #             kinModel.aperModel.galaxy.spec2D.flux_err)**2.) + \
     #         np.log10(2.*np.pi*kinModel.aperModel.galaxy.spec2D.flux_err**2) )
+    # Masked pixels (even if non-finite) don't contribute:
+    chisq_arr_raw_modified = np.where(kinModel.aperModel.galaxy.spec2D.spec_mask == 0,
+                                0., chisq_arr_raw_modified)
+
     return -0.5*chisq_arr_raw_modified.sum()
 
 #
@@ -400,6 +404,9 @@ def _model_chisq(kinModel, model=None):
                 kinModel.aperModel.galaxy.spec2D.spec_mask)/kinModel.aperModel.galaxy.spec2D.flux_err)**2.)*\
                 kinModel.aperModel.galaxy.spec2D.fitting_weight_matrix
 
+    # Masked pixels (even if non-finite) don't contribute:
+    chisq_arr_raw = np.where(kinModel.aperModel.galaxy.spec2D.spec_mask == 0, 0., chisq_arr_raw)
+
     chisq = chisq_arr_raw.sum()
 
     return chisq
@@ -443,6 +450,9 @@ def _model_chisq_no_weight(kinModel, model=None):
     chisq_arr_raw = ((((kinModel.aperModel.galaxy.spec2D.flux-model)*\
                 kinModel.aperModel.galaxy.spec2D.spec_mask)/kinModel.aperModel.galaxy.spec2D.flux_err)**2.)
 
+    # Masked pixels (even if non-finite) don't contribute:
+    chisq_arr_raw = np.where(kinModel.aperModel.galaxy.spec2D.spec_mask == 0, 0., chisq_arr_raw)
+
     chisq = chisq_arr_raw.sum()
 
     return chisq
-- 
2.43.0


From 80871ea4375ae919e5fbdee4d4c4cb357cac9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 11/54] fix: IFU cubes are rebinned to whole pixels, also when
 updated, without modifying the instrument

---
 misfit/model/kin_model.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 1eec049..78d716c 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -236,8 +236,9 @@ class KinModel2D(object):
                 n_pix_y_whole = galaxy.spec2D.flux.shape[0]
             else:
                 n_pix_y_whole = galaxy.spec2D.shape[0]
+            #   on a copy, to not modify the input instrument
+            instrument = copy.deepcopy(instrument)
             instrument.slit_width = n_pix_y_whole*instrument.pixscale
-            n_pix_x_whole = n_pix_y_whole
 
             self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
                                 theta=self.theta,
@@ -250,6 +251,7 @@ class KinModel2D(object):
                                 do_inst_res_conv_effective=self.kinModelOptions.do_inst_res_conv_effective,
                                 absvalsigma=self.kinModelOptions.absvalsigma,
                                 adaptive_upsample_wave=self.kinModelOptions.adaptive_upsample_wave,
+                                adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,
                                 sigma_floor=self.kinModelOptions.sigma_floor,
                                 debug=self.debug)#,
         else:
@@ -257,28 +259,35 @@ class KinModel2D(object):
             #                     kinProfile=self.kinProfile)
             self.aperModel.update_model(theta=self.theta)
 
+        self.downsample_3D_int_model()
+
+    def downsample_3D_int_model(self):
         ###################
         # Do downsampling:
         # # Save the 2D model to base part of class
 
-        # Shape: nSpec, nY, nX
-        nWave = len(galaxy.spec2D.wave.copy())
-        # if self.debug:
-        #     print("spec cube conv shape={}".format(self.aperModel.spectra_cube_conv.shape))
-        #     print("n_pix_y_whole={}, padY={}, n_pix_x_whole={}, padX={}".format(n_pix_y_whole,
-        #             self.aperModel.padY, n_pix_x_whole, self.aperModel.padX))
+        # spectra_cube_conv is already trimmed to the IFU field. Shape: nSpec, nY, nX
+        nWave = len(self.aperModel.galaxy.spec2D.wave)
+        n_pix_y_whole = self.aperModel.n_pix_y_whole
+        n_pix_x_whole = int(np.round(self.aperModel.n_pix_x/float(self.aperModel.nSubpixels)))
+        # Spectra are flux densities: average over the wavelength samples if upsampled.
+        n_upsample = self.aperModel.spectra_cube_conv.shape[0]/float(nWave)
         self.model_cube = kfuncs.rebin(self.aperModel.spectra_cube_conv.copy(),
-                    nWave, n_pix_y_whole+2*self.aperModel.padY, n_pix_x_whole+2*self.aperModel.padX)
+                    nWave, n_pix_y_whole, n_pix_x_whole)/n_upsample
 
         if self.debug:
-            # Downsample others too
-            self.I_wide = kfuncs.rebin(self.aperModel.I_wide.copy(),
+            # Downsample others too: trim the padding first
+            padX = self.aperModel.padX
+            padY = self.aperModel.padY
+            trim = (slice(None), slice(padY, self.aperModel.n_pix_y+padY),
+                        slice(padX, self.aperModel.n_pix_x+padX))
+            self.I_wide = kfuncs.rebin(self.aperModel.I_wide[trim],
                         n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
             #
-            self.V_wide = kfuncs.rebin(self.aperModel.V_wide.copy(),
+            self.V_wide = kfuncs.rebin(self.aperModel.V_wide[trim],
                         n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
             #
-            self.I_Vsq_wide = kfuncs.rebin(self.aperModel.I_Vsq_wide.copy(),
+            self.I_Vsq_wide = kfuncs.rebin(self.aperModel.I_Vsq_wide[trim],
                         n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
 
     def update_3D_int_model(self, theta_fitting=None):
@@ -296,8 +305,7 @@ class KinModel2D(object):
         #                         kinProfile=self.aperModel.kinProfile)
         self.aperModel.update_model(theta=self.theta)
 
-        # # Save the 2D model to base part of class
-        self.model_cube = self.aperModel.spectra_cube.copy()
+        self.downsample_3D_int_model()
 
     # +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
-- 
2.43.0


From b0df3a40d3067468c2dd3f9d19bbf3fd05104fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 12/54] fix: FitEmissionLines1D.fit with Monte Carlo errors
 doesn't end in a leftover ValueError

---
 misfit/fit/fit1D.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 41b622d..ca56062 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -506,8 +506,6 @@ class FitEmissionLines1D(object):
             self.cont_coeff_err =   \
                 values_err[len(self.names_arr)+2:len(self.names_arr)+2+self.cont_order+1,:]
 
-            raise ValueError
-
         else:
             print( "Not doing errors")
             self.z_err =            np.zeros(2)
-- 
2.43.0


From 29a3b3b35be01fcbf7cbbcd0f4c1a0dc2b7bf4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 13/54] fix: instrument-corrected dispersion errors use the
 instrument's resolution

---
 misfit/fit/fit1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index ca56062..3b52b3d 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -612,7 +612,7 @@ class FitEmissionLines1D(object):
 
             # Correct all in value matrix
             vel_disp_mc = value_matrix[:,1]
-            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.galaxy.spec1D.instrument_resolution**2)
+            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.instrument.instrument_resolution**2)
 
             # Make non-finite cases: these are where inst res > vel disp
             vel_disp_mc_inst_corr[~np.isfinite(vel_disp_mc_inst_corr)] = 0.
-- 
2.43.0


From e9a42856d02ea76a1c568da9989899fb7779e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 14/54] fix: FitEmissionLines1D with line groups of different
 sizes

---
 misfit/fit/fit1D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 3b52b3d..a874678 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -181,7 +181,8 @@ class FitEmissionLines1D(object):
                     wave_arr.append(io.read_restwave(wave_file, linename=linename))
                 waves_arr.append(wave_arr)
 
-            self.restwave_arr = np.array(waves_arr)
+            # List: line groups can have different numbers of lines
+            self.restwave_arr = waves_arr
 
     def setup_spectrum(self):
         """
-- 
2.43.0


From a24b376581314658196c7cf75058e78a45ed414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 15/54] fix: trim_spectrum_1D works with a float redshift

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 1669209..c6bfb90 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -46,7 +46,7 @@ def trim_spectrum_1D(spec1D, galaxy, trim_restwave_range=None,
         trim_restwave_range = io.read_wave_range(param_restwave_filename,linename=linename)
 
     if trim_obswave_range is None:
-        trim_obswave_range = np.array(trim_restwave_range)*(1.+galaxy.z).tolist()
+        trim_obswave_range = (np.array(trim_restwave_range)*(1.+galaxy.z)).tolist()
 
     # Find the range there is coverage:
     if spec1D is not None:
-- 
2.43.0


From ac70331e4037bdbaa409408bac9529a29a1a6171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 16/54] fix: mask_edges_1D masks num_edge pixels at the red
 edge, also for short spectra

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c6bfb90..763bed8 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -694,7 +694,7 @@ def mask_edges_1D(spec=None, spec_err=None, spec_mask=None,num_edge=10):
         if edge_l > 0:
             spec_mask[edge_l:edge_l+num_edge] = 0
         if edge_r < len(spec)-1:
-            spec_mask[edge_r-num_edge-1:edge_r+1] = 0
+            spec_mask[max(edge_r-num_edge+1, 0):edge_r+1] = 0
 
     return spec_mask
 
-- 
2.43.0


From 28b911a57ff3058235a50828ec66e0ff00f42dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 17/54] fix: 1D line profiles have the given total flux, also
 when off center or out of range

---
 misfit/model/emission_lines_model.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 5b8292a..728f7f4 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -275,9 +275,6 @@ def gaussian_line(x, mu, vel_sig, flux):
     # Convert vel_sig into sig in wavelength:
     sig = vel_sig / c_kms * mu
 
-    # make gaussian
+    # make gaussian, with total flux = flux
     gaus = norm.pdf(x, mu, sig)
-    # scale to amplitude
-    scale = flux/(sig*np.sqrt(2.*np.pi))
-    gaus = gaus/gaus.max()*scale
-    return gaus
+    return flux*gaus
-- 
2.43.0


From c2005a6739a462e677f24801fd84841bfd50d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 18/54] fix: Moffat PSF kernel includes the dither negative
 images

---
 misfit/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index 52ba1d3..bff23ec 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -69,7 +69,7 @@ class PSFMoffat(PSFBase):
         beta = self.PSF_beta
         alpha = PSF_FWHM/(2. * np.sqrt(np.power(2., 1./beta) -1))
 
-        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta)
+        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta, yspace_dither_arc=self.yspace_dither_arc)
 
 
 class Instrument(object):
-- 
2.43.0


From fe8e58d9b59c87a17ae409c693719931c683269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 19/54] fix: 1 sigma errors of a second group of linked
 posteriors use the 1 sigma limits

---
 misfit/fit/fit_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index fbc399f..2c6eca0 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1071,6 +1071,7 @@ def get_param_posterior_bestfits(fitEmis2D):
     # eg, for V_a and r_t mcmc based on best-fit value for V(R_E):
     if fitEmis2D.theta_linked_posteriors is not None:
         mcmc_lims_zip = list(zip(*mcmc_limits))
+        mcmc_lims_zip_2sig = list(zip(*mcmc_limits_2sig))
 
         for i in range(len(fitEmis2D.theta_linked_posteriors)):
             mcmc_peak, mcmc_uncertainties_1sig = \
@@ -1080,10 +1081,9 @@ def get_param_posterior_bestfits(fitEmis2D):
             fitEmis2D.mcmc_results.bestfit_theta = mcmc_peak
             fitEmis2D.mcmc_results.err_theta_1sig = mcmc_uncertainties_1sig
 
-            mcmc_lims_zip = list(zip(*mcmc_limits_2sig))
             mcmc_peak, mcmc_uncertainties_2sig = \
                     utils.get_bestfit_values_linked(fitEmis2D,
-                    mcmc_uncertainties_2sig, mcmc_lims_zip,
+                    mcmc_uncertainties_2sig, mcmc_lims_zip_2sig,
                     theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i]) #, debug=True)
             fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig
 
-- 
2.43.0


From ce6e6ef28adb7a995d85ba509d0c80c63b494fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 20/54] fix: re-analyzing an MCMC chain doesn't append the
 derived parameters again

---
 misfit/fit/fit_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 2c6eca0..edcfa54 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -931,6 +931,9 @@ def add_v_re_22(fitEmis2D):
     """
     Add velocity, dispersion at R_E and r_2.2 (eg, 2.2*r_s, or 2.2/1.67*R_E assuming n=1)
     """
+    # Only start from the free parameters, if the chain was already analyzed:
+    fitEmis2D.sampler_dict['flatchain'] = \
+            fitEmis2D.sampler_dict['flatchain'][:, :fitEmis2D.kinModel.n_free_param]
 
     if fitEmis2D.kinModelOptions.absvalsigma:
         # Take abs of dispersion chain values before continuing
-- 
2.43.0


From 8374868f3915ee785cdcc484a74288a2fe2b4c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 21/54] fix: absvalsigma with a fixed dispersion doesn't take
 the absolute value of the other parameters

---
 misfit/fit/fit_core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index edcfa54..03b403c 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -948,10 +948,12 @@ def add_v_re_22(fitEmis2D):
                 else:
                     free_inds.append(None)
             ind = free_inds[ind_all]
-            fitEmis2D.sampler_dict['flatchain'][:, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
-            fitEmis2D.sampler_dict['chain'][:, :, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
+            # Nothing to do if the dispersion is fixed
+            if ind is not None:
+                fitEmis2D.sampler_dict['flatchain'][:, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
+                fitEmis2D.sampler_dict['chain'][:, :, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
         else:
             raise ValueError
 
-- 
2.43.0


From 97456d145ba15bdc716eed2fd9d254aaf45c064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 22/54] fix: MCMC fits work without an h5 sampler filename

---
 misfit/fit/fit_core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 03b403c..1cdb626 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -535,8 +535,11 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
 
     moves = emcee.moves.StretchMove(a=fitEmis2D.mcmcOptions.scale_param_a)
 
-    backend_burn = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, 
+    if fitEmis2D.mcmcOptions.filename_sampler_h5 is not None:
+        backend_burn = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, 
                                              name="burnin_mcmc")
+    else:
+        backend_burn = emcee.backends.Backend()     # Not saved to file
 
     if fitEmis2D.mcmcOptions.overwrite:
         backend_burn.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)
@@ -684,7 +687,10 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
         # Setup sampler:
         # --------------------------------
         # Start backend:
-        backend = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, name="mcmc")
+        if fitEmis2D.mcmcOptions.filename_sampler_h5 is not None:
+            backend = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, name="mcmc")
+        else:
+            backend = emcee.backends.Backend()     # Not saved to file
 
         if fitEmis2D.mcmcOptions.overwrite:
             backend.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)
-- 
2.43.0


From 8707adfea189fdd86c08a410876dd3f4a5628686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 23/54] fix: posterior peaks of constant (fixed) derived
 parameters

---
 misfit/general/general_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 5fcf554..aa3977e 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -209,8 +209,12 @@ def find_peak_gaussian_KDE(flatchain, initval):
     if nparams > 1:
         peakvals = np.zeros(nparams)
         for i in range(nparams):
-            kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
+            if flatchain[:,i].min() == flatchain[:,i].max():
+                # Constant: eg, derived from a fixed parameter
+                peakvals[i] = flatchain[0,i]
+            else:
+                kern = gaussian_kde(flatchain[:,i])
+                peakvals[i] = fmin(lambda x: -kern(x)[0], initval[i], disp=False)[0]
         return peakvals
     else:
         neg_kernel = gaussian_KDE_kernel_func(flatchain)
@@ -226,7 +230,7 @@ def find_peak_gaussian_KDE_multiD(flatchain, linked_inds, initval):
 
     nparams = len(linked_inds)
     kern = gaussian_kde(flatchain[:,linked_inds].T)
-    peakvals = fmin(lambda x: -kern(x), initval, disp=False)
+    peakvals = fmin(lambda x: -kern(x)[0], initval, disp=False)
 
     return peakvals
 
-- 
2.43.0


From f0e60719d1231a0a5b1c2548487ace4ee3643ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 24/54] fix: 2D fit corner plot with current corner versions,
 and with a fixed dispersion

---
 misfit/plot/plot_mcmc.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 7e189e2..fff0fdb 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -47,7 +47,7 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
                             truths=truths,
                             plot_datapoints=False,
-                            show_titles=True,
+                            show_titles=False,  # Titles are set below
                             bins=40,
                             plot_contours=True,
                             verbose=verbose)
@@ -146,18 +146,19 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             xytext=(0,2), textcoords='offset points',
                             ha='left', va='bottom')
 
-    # Annotate sigma
-    wh_sig = np.where(np.array(fitEmis2D.mcmc_results.theta_names) == 'sigma0')[0][0]
-    val = "%3.2f" % fitEmis2D.mcmc_results.bestfit_theta[wh_sig]
-    lower = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][0]
-    upper = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][1]
-    if usetex:
-        sig_string = r"$\sigma="+val+"^{"+upper+r"}_{"+lower+"}$"
-    else:
-        sig_string = "sigma="+val+"-"+lower+"+"+upper
-    fig.gca().annotate(sig_string, xy=(.33, 0.), xycoords="figure fraction",
-                        xytext=(0,2), textcoords="offset points",
-                        ha="right", va="bottom")
+    # Annotate sigma: if it is a free parameter
+    if 'sigma0' in fitEmis2D.mcmc_results.theta_names:
+        wh_sig = np.where(np.array(fitEmis2D.mcmc_results.theta_names) == 'sigma0')[0][0]
+        val = "%3.2f" % fitEmis2D.mcmc_results.bestfit_theta[wh_sig]
+        lower = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][0]
+        upper = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][1]
+        if usetex:
+            sig_string = r"$\sigma="+val+"^{"+upper+r"}_{"+lower+"}$"
+        else:
+            sig_string = "sigma="+val+"-"+lower+"+"+upper
+        fig.gca().annotate(sig_string, xy=(.33, 0.), xycoords="figure fraction",
+                            xytext=(0,2), textcoords="offset points",
+                            ha="right", va="bottom")
 
 
     # Annotate V(R_E)
-- 
2.43.0


From 79d720b8f4b32d61c55f589912e5a4ccd365c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 25/54] fix: plotting calls removed in current matplotlib and
 scipy versions

---
 misfit/general/galaxy_utils.py | 2 +-
 misfit/plot/plot_image_slit.py | 6 +++---
 misfit/plot/plot_utils.py      | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 763bed8..125d1d9 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -835,7 +835,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         ax2 = _plt.subplot(gs1[0,1])
         ax3 = _plt.subplot(gs1[0,2])
 
-        ax.imshow(flux, interpolation='Nearest',origin='lower')
+        ax.imshow(flux, interpolation='nearest',origin='lower')
 
         ax2.plot(sp_arr, 'b')
         ax2.plot(err_arr, 'r')
diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 0fd1f63..4861ae5 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -268,7 +268,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
 
     ax.imshow(np.log10(pstamp_trim + median_err*(ext) ), cmap=cmap,
-            interpolation='Nearest', origin=origin, vmin=vmin, vmax=vmax)
+            interpolation='nearest', origin=origin, vmin=vmin, vmax=vmax)
 
     if external_ax is False:
         try:
@@ -374,7 +374,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             ############
             # Information in sub-title:
             if external_ax is False:
-                ax.annotate(s=s, xy=[.5, 0.05], xycoords='figure fraction',
+                ax.annotate(s, xy=[.5, 0.05], xycoords='figure fraction',
                             ha='center', va='bottom')
             if verbose:
                 print("% misfit.plot.plot_image_slit:")
@@ -404,7 +404,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
             # Plot ellipse:
             ell = Ellipse((x0_gal,y0_gal), 2.*semi_minor/pscale,
-                            2.*semi_major/pscale, galfit_angle,
+                            2.*semi_major/pscale, angle=galfit_angle,
                             ec='blue', fc='none', fill=False, zorder=11)
 
             ####################################
diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index 88b415c..361defd 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -13,7 +13,7 @@ import numpy as np
 from astropy.wcs import WCS
 # from astropy import coordinates as coords
 
-from scipy.ndimage.interpolation import rotate as scipyrotate
+from scipy.ndimage import rotate as scipyrotate
 from scipy.signal import fftconvolve
 
 deg2rad = np.pi/180.
-- 
2.43.0


From 194e46a9088e8a7161be77b5c053a8d6729b1cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 26/54] fix: box_integrate weights each pixel by its overlap
 with the new pixel

---
 misfit/plot/plot_image_slit.py | 43 +++++-----------------------------
 1 file changed, 6 insertions(+), 37 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 4861ae5..a8868d7 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -502,46 +502,15 @@ def box_integrate(x, y, x_new, debug=False):
         low = x_new[i] - delt_x_new/2.
         high = x_new[i] + delt_x_new/2.
 
-        # Initialize integrated value:
-        int_y = 0.
+        # Length of the overlap of each old pixel with this interval. Parts of the
+        #   interval beyond the original x are missing data, implicitly zero.
+        overlap = np.minimum(x_high, high) - np.maximum(x_low, low)
+        overlap[overlap < 0.] = 0.
 
-        try:
-            # Pixels wholly contained within the new range:
-            c_l = np.where(x_low >= low)[0]
-            c_r = np.where(x_high <= high)[0]
-            ind_c = np.array(list(set(c_l) & set(c_r)))
-            ind_c.sort()
-
-            int_y += np.sum(y[ind_c])*delt_x
-        except:
-            ind_c = 'None'
-
-
-        # For outside edges: wrap in try..except
-        #   to cover case of x_new extending further than
-        #   original x -- the missing data will implicitly be zero.
-        try:
-            # Find element of x_low just lower than low
-            ind_l = np.where(x_low <= low)[0].max()
-            # range corresponding to this interval:
-            # (x_high[ind_l] - low)
-
-            int_y += y[ind_l]*(x_high[ind_l]-low)
-        except:
-            ind_l = 'None'
-
-        try:
-            # find element of x_high just higher than high
-            ind_r = np.where(x_high >= high)[0].min()
-            # range corresponding to this interval:
-            # (high - x_low[ind_r])
-
-            int_y += y[ind_r]*(high-x_low[ind_r])
-        except:
-            ind_r = 'None'
+        int_y = np.sum(y*overlap)
 
         if debug:
-            print("indicies = {:d} {:d} {:d}".format(ind_l, ind_c, ind_r) )
+            print("indices = {}".format(np.where(overlap > 0.)[0]) )
 
 
         y_new[i] = int_y/delt_x_new
-- 
2.43.0


From ae7237494d68a282d01531b4cb2457fab640d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:01 +0000
Subject: [PATCH 27/54] fix: dispersion aperture corrections use the given
 profile slope d in the aperture too

---
 misfit/model/kin_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 3515696..8ac288b 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -598,7 +598,7 @@ def sigma_aper_dispersion(aperModel1DDisp = None, re_arcsec=None, re_mass_arcsec
     # re_arcsec should already be circularized -- use q=1.
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=1., delt_PA=0., re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    d=aperModel1DDisp.d, r_core=aperModel1DDisp.r_core)
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full, re_arcsec=re_arcsec,
                         n=aperModel1DDisp.galaxy.n, q=1., delt_PA=0.,r_core=aperModel1DDisp.r_core)
@@ -681,7 +681,7 @@ def sigma_aper_dispersion_misalign(aperModel1DDisp = None,
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=aperModel1DDisp.galaxy.q, delt_PA=aperModel1DDisp.galaxy.delt_PA,
                     re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    d=aperModel1DDisp.d, r_core=aperModel1DDisp.r_core)
 
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
@@ -996,13 +996,13 @@ def sigma_aper_dispersion_misalign_ORIG(aperModel1DDisp = None, re_arcsec=None,
 
 #@jit
 @njit
-def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None):
+def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, d=-0.089, r_core=None):
 
     r = r_int_ellip(x, y, q, delt_PA)
 
     # r is relative to r_circularized for that given ellipse -- use re_circ.
     # INPUT RE_CIRC!
-    sigma_val = sigma_profile(r, re_mass_arcsec, r_core=r_core)
+    sigma_val = sigma_profile(r, re_mass_arcsec, d=d, r_core=r_core)
 
     return sigma_val**2
 
-- 
2.43.0


From f553d25d589d350b848a3b456287ad3ca763aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 28/54] fix: Moffat PSF with PSF_FWHM=0 (no PSF convolution)
 doesn't raise

---
 misfit/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index bff23ec..00604e4 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -161,7 +161,7 @@ def PSF_stamp_gauss(x, y, PSF_FWHM=None, yspace_dither_arc=None):
     return conv_stamp
 
 ## TEST 2019.11.14
-@njit
+@njit(error_model='numpy')      # as for the Gaussian: PSF_FWHM=0 (no PSF) doesn't raise
 def PSF_stamp_moffat(x, y, alpha=None, beta=None, yspace_dither_arc=None):
     # x, y should already be *CENTERED*, and in arcsec.
 
-- 
2.43.0


From 0663592c26e0c6d13ac3a7bc9b0bf37cda469a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:34 +0000
Subject: [PATCH 29/54] fix: a non-finite error doesn't make a scaled model row
 NaN

---
 misfit/model/kin_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 78d716c..e8fc735 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -157,8 +157,9 @@ class KinModel2D(object):
         den_arr = np.sum(self.model[:,wh_no_sky]**2/galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
 
         num_arr[~np.isfinite(num_arr)] = 0.
-        num_arr[np.abs(den_arr) == 0.] = 0.
-        den_arr[np.abs(den_arr) == 0.] = -99.
+        wh_bad = (np.abs(den_arr) == 0.) | ~np.isfinite(den_arr)
+        num_arr[wh_bad] = 0.
+        den_arr[wh_bad] = -99.
 
         ratio_arr = num_arr/den_arr
         # Tile it: column over rows: like nY
-- 
2.43.0


From 2047612b024fe9767fa45f2fe4ffb8a6cd62ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 30/54] fix: missing (zero error) pixels are masked also if
 some error is NaN

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 125d1d9..4716fba 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -710,7 +710,7 @@ def spec_mask_missing(spec=None, spec_err=None, spec_weight=None,
 
     # ##########################################################
     # # Mask missing values: eg, where error = 0.
-    if (not nonfinite_only) & (np.abs(spec_err).max() > 0.):
+    if (not nonfinite_only) & (np.nanmax(np.abs(spec_err)) > 0.):
         wh_missing = np.where(spec_err == 0.)[0]
         spec_mask[wh_missing] = 0.
     # ##########################################################
-- 
2.43.0


From 626c6df4a5461a95055e15cceac2e5a392d63086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:42 +0000
Subject: [PATCH 31/54] fix: the 1D fit's redshift doesn't stay at its start if
 that is mid-range up to rounding

---
 misfit/fit/fit1D.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index a874678..84bde93 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -203,13 +203,24 @@ class FitEmissionLines1D(object):
         # and mask the edges:
         self.galaxy.spec1D_trim.mask_edges()
 
+    def _get_z_start(self):
+        """
+        Starting value of z, not quite in the middle of its bounds: there the internal
+        value of the bounded LMFIT parameter is zero up to rounding, and the resulting
+        vanishing finite difference step would keep z from being fit.
+        """
+        del_z = 1.e-3*self.del_obs_lam/self.restwave_arr[0][0]
+        if np.abs(self.z - self.galaxy.z) < del_z:
+            return self.galaxy.z + del_z
+        return self.z
+
     #
     def make_params(self, flux_bound=False, vel_disp_bound=False):
         """
         Initialize the LMFIT fitting parameters class with values and fit ranges.
         """
         params = lmfit.Parameters()
-        params.add('z', value=self.z, min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
+        params.add('z', value=self._get_z_start(), min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
                     max=self.galaxy.z+self.del_obs_lam/self.restwave_arr[0][0])
 
         if vel_disp_bound:
@@ -450,7 +461,7 @@ class FitEmissionLines1D(object):
                     spec_perturb += self.galaxy.spec1D_trim.flux_err*rand_vals
 
                     params_best = lmfit.Parameters()
-                    params_best.add('z', value=self.z, min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
+                    params_best.add('z', value=self._get_z_start(), min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
                                 max=self.galaxy.z+self.del_obs_lam/self.restwave_arr[0][0])
                     params_best.add('vel_disp', value=self.vel_disp)#, min=0.)
                     if fix_z:
-- 
2.43.0


From d5868171d8b0040e48e01c91e448aadc3b410bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 32/54] fix: a negative trial dispersion doesn't make the 1D
 model (and so all residuals) vanish

---
 misfit/model/emission_lines_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 728f7f4..02e7813 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -276,5 +276,6 @@ def gaussian_line(x, mu, vel_sig, flux):
     sig = vel_sig / c_kms * mu
 
     # make gaussian, with total flux = flux
-    gaus = norm.pdf(x, mu, sig)
+    #   (symmetric in sig: a step to vel_sig<0 in a fit must not make the model non-finite)
+    gaus = norm.pdf(x, mu, np.abs(sig))
     return flux*gaus
-- 
2.43.0


From b17726f894f6f03fe29470a69ffaec1c6ab8c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:07 +0000
Subject: [PATCH 33/54] fix: line fluxes below 1e-15 are fit from their initial
 values, also when bounded

---
 misfit/fit/fit1D.py | 63 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 84bde93..a3b0930 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -50,6 +50,12 @@ c_kms = c_cgs * 1.e-5 # from cm/s -> km/s
 c_AA = c_cgs * 1.e8  # go from cm/s -> AA/s
 
 
+class _Value(object):
+    """Parameter value, as used by `EmissionLinesSpectrum1DModel`"""
+    def __init__(self, value):
+        self.value = value
+
+
 class FitEmissionLines1D(object):
     """
     Class to fit the flux and velocity dispersion of a 1D spectrum, 
@@ -240,6 +246,43 @@ class FitEmissionLines1D(object):
 
         return params
 
+    def _minimize(self, emisModel, params, flux):
+        """
+        Fit the flux array with LMFIT, with line fluxes in units of the brightest initial one:
+        LMFIT starts values below 1e-15 from zero, and can't resolve them next to a bound.
+        The fluxes of the result are in the original units.
+        """
+        norm = np.max(np.abs(self.flux_arr))
+        if not (np.isfinite(norm) & (norm > 0.)):
+            norm = 1.
+
+        names = [name for name in params if name.startswith('flux')]
+
+        def residual(params):
+            values = dict((name, _Value(params[name].value)) for name in params)
+            for name in names:
+                values[name].value *= norm
+            return emisModel.residual1DProfile(values, self.galaxy.spec1D_trim.obswave, flux,
+                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask)
+
+        for name in names:
+            params[name].set(value=params[name].value/norm)
+
+        result = lmfit.minimize(residual, params)
+
+        for name in names:
+            par = result.params[name]
+            stderr, init_value = par.stderr, par.init_value
+            par.value = par.value*norm
+            par.init_value = init_value*norm
+            if stderr is not None:
+                par.stderr = stderr*norm
+        if getattr(result, 'covar', None) is not None:
+            scale = np.array([norm if name in names else 1. for name in result.var_names])
+            result.covar = result.covar*np.outer(scale, scale)
+
+        return result
+
     def fit(self, reload_errors=False,
             noErrors=False, noPlot=False,
             plot_filename=None, err_filename=None,
@@ -314,26 +357,18 @@ class FitEmissionLines1D(object):
                         cont_order=self.cont_order, shape1D=self.shape1D)
 
         # Do the fitting:
-        result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+        result = self._minimize(emisModel, params, self.galaxy.spec1D_trim.flux)
 
         #raise ValueError
         if (result.params['vel_disp'].value < 0.) & (result.params['flux0'].value < 0.):
             params = self.make_params(vel_disp_bound=True, flux_bound=True)
-            result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+            result = self._minimize(emisModel, params, self.galaxy.spec1D_trim.flux)
         elif (result.params['vel_disp'].value < 0.):
             params = self.make_params(vel_disp_bound=True)
-            result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+            result = self._minimize(emisModel, params, self.galaxy.spec1D_trim.flux)
         elif (result.params['flux0'].value < 0.):
             params = self.make_params(flux_bound=True)
-            result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+            result = self._minimize(emisModel, params, self.galaxy.spec1D_trim.flux)
 
         #if not result.errorbars:
         #    fix_cont = True
@@ -478,9 +513,7 @@ class FitEmissionLines1D(object):
                             params_best['cont_coeff'+str(jj)].vary = False
 
                     #now fit the perturbed spectrum:
-                    result_mc = lmfit.minimize(emisModel.residual1DProfile, params_best,
-                            args=(self.galaxy.spec1D_trim.obswave, spec_perturb,
-                                self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+                    result_mc = self._minimize(emisModel, params_best, spec_perturb)
 
 
                     if not noPlot:
-- 
2.43.0


From d7c3f36f7fc03a1aa07c960abba0aa9039bd601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:24 +0000
Subject: [PATCH 34/54] fix: 2 sigma errors of linked posteriors are relative
 to the reported best fit

---
 misfit/fit/fit_core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1cdb626..0a10c35 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1082,7 +1082,6 @@ def get_param_posterior_bestfits(fitEmis2D):
     # eg, for V_a and r_t mcmc based on best-fit value for V(R_E):
     if fitEmis2D.theta_linked_posteriors is not None:
         mcmc_lims_zip = list(zip(*mcmc_limits))
-        mcmc_lims_zip_2sig = list(zip(*mcmc_limits_2sig))
 
         for i in range(len(fitEmis2D.theta_linked_posteriors)):
             mcmc_peak, mcmc_uncertainties_1sig = \
@@ -1092,11 +1091,11 @@ def get_param_posterior_bestfits(fitEmis2D):
             fitEmis2D.mcmc_results.bestfit_theta = mcmc_peak
             fitEmis2D.mcmc_results.err_theta_1sig = mcmc_uncertainties_1sig
 
-            mcmc_peak, mcmc_uncertainties_2sig = \
-                    utils.get_bestfit_values_linked(fitEmis2D,
-                    mcmc_uncertainties_2sig, mcmc_lims_zip_2sig,
-                    theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i]) #, debug=True)
-            fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig
+        # 2 sigma uncertainties of these same best-fit values
+        mcmc_stack_2sig = np.concatenate(([fitEmis2D.mcmc_results.bestfit_theta], mcmc_limits_2sig), axis=0)
+        mcmc_uncertainties_2sig = np.array(list(map(lambda v: (v[0]-v[1], v[2]-v[0]),
+                            list(zip(*mcmc_stack_2sig)))))
+        fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig
 
     #############################################################################
     ## Get percent other sign:
-- 
2.43.0


From 513ff95c71b89fd46a12504f45305801851e892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:54 +0000
Subject: [PATCH 35/54] fix: the search for posterior peaks also works for
 values near zero

---
 misfit/general/general_utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index aa3977e..ad3b9da 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -214,7 +214,11 @@ def find_peak_gaussian_KDE(flatchain, initval):
                 peakvals[i] = flatchain[0,i]
             else:
                 kern = gaussian_kde(flatchain[:,i])
-                peakvals[i] = fmin(lambda x: -kern(x)[0], initval[i], disp=False)[0]
+                # Initial step: from the width of the posterior, as a fraction of initval
+                #   would be too small to start the search if that is near zero.
+                simplex = np.array([[initval[i]], [initval[i] + 0.1*flatchain[:,i].std()]])
+                peakvals[i] = fmin(lambda x: -kern(x)[0], initval[i], disp=False,
+                                initial_simplex=simplex)[0]
         return peakvals
     else:
         neg_kernel = gaussian_KDE_kernel_func(flatchain)
@@ -230,7 +234,10 @@ def find_peak_gaussian_KDE_multiD(flatchain, linked_inds, initval):
 
     nparams = len(linked_inds)
     kern = gaussian_kde(flatchain[:,linked_inds].T)
-    peakvals = fmin(lambda x: -kern(x)[0], initval, disp=False)
+    # Initial steps: from the widths of the posteriors (see find_peak_gaussian_KDE)
+    steps = 0.1*flatchain[:,linked_inds].std(axis=0)
+    simplex = np.vstack([initval, initval + np.diag(steps)])
+    peakvals = fmin(lambda x: -kern(x)[0], initval, disp=False, initial_simplex=simplex)
 
     return peakvals
 
-- 
2.43.0


From 44658655a1aac8e27a620653e7d979c552a99464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:46 +0000
Subject: [PATCH 36/54] fix: a fit reloaded from its saved results can be
 plotted and saved again

---
 misfit/fit/fit2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index ab04616..6d9a6f3 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -435,7 +435,7 @@ class FitEmissionLines2D(object):
 
 
         # Clean up a few things:
-        del fitEmis2DResults.galaxy.pstamp
+        fitEmis2DResults.galaxy.pstamp = None
         if 'spec_hdr' in fitEmis2DResults.galaxy.spec2D.__dict__.keys():
             del fitEmis2DResults.galaxy.spec2D.spec_hdr
 
-- 
2.43.0


From 294d88e8c8fcfd009e345fcca297b551ef627516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 37/54] fix: corner plot of a fit with fixed velocity
 parameters

---
 misfit/plot/plot_mcmc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index fff0fdb..3e8e10f 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -42,10 +42,18 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
     # 1, 2 sigma quantiles:  [.02275, 0.15865, 0.84135, .97725]
     samples = fitEmis2D.sampler_dict['flatchain'][:,:-2]
 
+    # Plot ranges: V(R_E), V_2.2 are constant if the velocity parameters are fixed
+    ranges = []
+    for i in range(samples.shape[1]):
+        low, high = samples[:,i].min(), samples[:,i].max()
+        if low == high:
+            low, high = low - 0.5, high + 0.5
+        ranges.append((low, high))
 
     fig = corner.corner(samples, labels=fitEmis2D.mcmc_results.theta_names_nice,
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
                             truths=truths,
+                            range=ranges,
                             plot_datapoints=False,
                             show_titles=False,  # Titles are set below
                             bins=40,
-- 
2.43.0


From 53a7af6bb464d45aa15a1ccb238982081a48bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:27 +0000
Subject: [PATCH 38/54] fix: the 2D fit uses the lines and parameter files set
 for fit and spectrum

---
 misfit/fit/fit2D.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 6d9a6f3..a53f643 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -231,17 +231,26 @@ class FitEmissionLines2D(object):
                 # linenames_arr = []
                 # set this from lib if not set:
                 d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
-                names_file = os.path.join(d, 'line_names_cat.dat')
-                self.linenames_arr = io.read_line_names(names_file, name=self.linegroup_name)
+                names_file = self.galaxy.spec2D.linenames_param_filename
+                if names_file is None:
+                    names_file = os.path.join(d, 'line_names_cat.dat')
+                linegroup_name = self.linegroup_name
+                if linegroup_name is None:
+                    linegroup_name = self.galaxy.spec2D.linegroup_name
+                self.linenames_arr = io.read_line_names(names_file, name=linegroup_name)
                 self.galaxy.spec2D.linenames_arr = self.linenames_arr
             else:
                 self.linenames_arr = self.galaxy.spec2D.linenames_arr
+        elif self.galaxy.spec2D.linenames_arr is None:
+            self.galaxy.spec2D.linenames_arr = self.linenames_arr
 
         if (self.linenames_arr is not None) & (self.restwave_arr is None):
             if (self.galaxy.spec2D.linenames_arr is not None) & \
                     (self.galaxy.spec2D.restwave_arr is None):
                 d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
-                wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
+                wave_file = self.galaxy.spec2D.restwave_param_filename
+                if wave_file is None:
+                    wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
                 waves_arr = []
                 for linename in self.linenames_arr:
                     waves_arr.append(io.read_restwave(wave_file, linename=linename))
@@ -249,11 +258,15 @@ class FitEmissionLines2D(object):
                 self.galaxy.spec2D.restwave_arr = self.restwave_arr
             else:
                 self.restwave_arr = self.galaxy.spec2D.restwave_arr
+        elif self.galaxy.spec2D.restwave_arr is None:
+            self.galaxy.spec2D.restwave_arr = self.restwave_arr
 
         if (self.linenames_arr is not None) & (self.flux_ratio_arr is None):
             if (self.galaxy.spec2D.linenames_arr is not None) & (self.galaxy.spec2D.flux_ratio_arr is None):
                 d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
-                wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
+                wave_file = self.galaxy.spec2D.restwave_param_filename
+                if wave_file is None:
+                    wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
                 line_ratio_arr = []
                 for linename in self.linenames_arr:
                     line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
@@ -261,6 +274,8 @@ class FitEmissionLines2D(object):
                 self.galaxy.spec2D.flux_ratio_arr = self.flux_ratio_arr
             else:
                 self.flux_ratio_arr = self.galaxy.spec2D.flux_ratio_arr
+        elif self.galaxy.spec2D.flux_ratio_arr is None:
+            self.galaxy.spec2D.flux_ratio_arr = self.flux_ratio_arr
 
 
         # Setup spectrum:
-- 
2.43.0


From 1be6763d3118d3bbfeec0faff8d7ba9cb5b4c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 39/54] fix: explicit wavelengths or ratios of a 1D line set
 are kept

---
 misfit/model/emission_lines_model.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 02e7813..28f1fcf 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -235,14 +235,18 @@ class EmissionLines1DModel(EmissionLines):
             d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
             wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
 
-            wave_arr = []
-            line_ratio_arr = []
-            for linename in self.linenames_arr:
-                wave_arr.append(io.read_restwave(wave_file, linename=linename))
-                line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
-
-            self.restwave_arr = np.array(wave_arr)
-            self.flux_ratio_arr = np.array(line_ratio_arr)
+            # Only those not explicitly set
+            if self.restwave_arr is None:
+                wave_arr = []
+                for linename in self.linenames_arr:
+                    wave_arr.append(io.read_restwave(wave_file, linename=linename))
+                self.restwave_arr = np.array(wave_arr)
+
+            if self.flux_ratio_arr is None:
+                line_ratio_arr = []
+                for linename in self.linenames_arr:
+                    line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
+                self.flux_ratio_arr = np.array(line_ratio_arr)
 
 
 
-- 
2.43.0


From 126a4f3dcf96105bc4d3b43359a43f62b5671d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:54 +0000
Subject: [PATCH 40/54] fix: the primary line of the NII doublet is listed
 first

---
 misfit/lib/line_names_cat.dat | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/lib/line_names_cat.dat b/misfit/lib/line_names_cat.dat
index 4713dc1..be57cb3 100644
--- a/misfit/lib/line_names_cat.dat
+++ b/misfit/lib/line_names_cat.dat
@@ -2,6 +2,6 @@
 Halpha    HA6565    
 Hbeta     HB4863
 OIII      OIII5008,OIII4960
-NII       NII6550,NII6585
+NII       NII6585,NII6550
 SII       SII6733,SII6718
 OII       OII3727,OII3730
-- 
2.43.0


From 4ce730f1a616442b9618ef6f34cb9f6947123a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 41/54] fix: the PSF convolution of the galaxy image plot keeps
 the image centred

---
 misfit/plot/plot_utils.py | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index 361defd..5567eab 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -5,6 +5,8 @@
 from __future__ import print_function
 
 # import pandas as pd
+import copy
+
 import numpy as np
 # import scipy as _sp
 
@@ -173,30 +175,6 @@ def convolve_rot_gal(galaxy=None, instrument=None, instrument_img=None,
 
     ##################################################################
 
-    w = WCS(galaxy.pstamp.pstamp_hdr)
-    w.sip = None
-
-    origin = 'lower'   # Origin of pstamp for imshow
-    originWCS = 1     # FITS standard
-
-    # x is column, y is row: arrays are row, column
-    cent_pix= np.array([(np.shape(galaxy.pstamp.pstamp)[1]-1)/2.,
-            (np.shape(galaxy.pstamp.pstamp)[0]-1)/2.])
-
-    x0WCS, y0WCS = w.wcs_world2pix(galaxy.RA, galaxy.DEC, originWCS)
-    x0WCS -= 1. # convert to np pixel coordinates
-    y0WCS -= 1. # convert to np pixel coordinates
-
-    try:
-        slit_PA = galaxy.spec2D.slit_PA
-    except:
-        slit_PA = galaxy.spec1D.slit_PA
-
-
-    x0_rot, y0_rot = rot_object_center(x0WCS, y0WCS,
-                                cent_pix, -1.*slit_PA*deg2rad)
-    # in np pixel coordinates
-
     # Rotate the pstamp so the slit is vertical
     pstamp_rot = rotate_pstamp(galaxy)
 
@@ -215,14 +193,18 @@ def convolve_rot_gal(galaxy=None, instrument=None, instrument_img=None,
                 endpoint=False)
     #cent = [y0_rot, x0_rot]
 
-    xoff = x - x0_rot
-    yoff = y - y0_rot
+    # Center the kernel in the stamp: convolution doesn't move the object
+    xoff = x - (len(x)-1)//2
+    yoff = y - (len(y)-1)//2
     xoffarc = xoff * instrument_img.pixscale
     yoffarc = yoff * instrument_img.pixscale
 
 
     #
-    conv_stamp = instrument.PSF.generate_conv_stamp(xoffarc, yoffarc,
+    # The image has no negative images from dithering
+    PSF = copy.copy(instrument.PSF)
+    PSF.yspace_dither_arc = None
+    conv_stamp = PSF.generate_conv_stamp(xoffarc, yoffarc,
                 PSF_FWHM=conv_sigma*(2.*np.sqrt(2.*np.log(2.))))
 
 
-- 
2.43.0


From 73eaa4a02779a3323c87f6e4f5b8ce8f9093ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 42/54] fix: the slit image plot works without the galfit
 overlay and places the object

---
 misfit/plot/plot_image_slit.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index a8868d7..1e2eb04 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -101,10 +101,13 @@ def plot_image_slit(galaxy=None, instrument=None,
     x0WCS_sci, y0WCS_sci = w.wcs_world2pix(galaxy.RA, galaxy.DEC, originWCS)
     x0WCS_sci -= 1. # Convert to np pixel coords
     y0WCS_sci -= 1. # Convert to np pixel coords
-    if plot_galfit:
+    if getattr(galaxy, 'sersicRA', None) is not None:
+        # Also if the galfit overlay isn't shown: centers the image
         x0_galfit, y0_galfit = w.wcs_world2pix(galaxy.sersicRA, galaxy.sersicDEC, originWCS)
         x0_galfit -= 1. # Convert to np pixel coords
         y0_galfit -= 1. # Convert to np pixel coords
+    else:
+        x0_galfit, y0_galfit = x0WCS_sci.copy(), y0WCS_sci.copy()
 
     # x is column, y is row: arrays are row, column
     cent_pix= np.array([(np.shape(galaxy.pstamp.pstamp)[1]-1)/2.,
@@ -175,7 +178,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
         if verbose:
             #print "yarc_orig=", yarc_orig
-            print("yarc_new={:0.3f}".format(yarc_new) )
+            print("yarc_new={}".format(yarc_new) )
 
         #!!!!!!!!!!!!!!!!!!!!!!!
 
@@ -243,7 +246,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         y_off_mid = (y0_gal-ylim[0]) - (m0+0.5)*instrument.pixscale/pscale
         ylim += y_off_mid
         if verbose:
-            print("(y0_gal-ylim[0]) - (m0+0.5)={:0.3f}".format( (y0_gal-ylim[0]) - (m0+0.5) ) )
+            print("(y0_gal-ylim[0]) - (m0+0.5)={}".format( (y0_gal-ylim[0]) - (m0+0.5) ) )
     #
     if verbose:
         print("ylim = {}".format(ylim) )
@@ -253,7 +256,9 @@ def plot_image_slit(galaxy=None, instrument=None,
     xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
     ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
-    tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
+    # The limits can reach beyond the image
+    tmp_trim = pstamp_trim[max(ylim_round[0],0):max(ylim_round[1],0),
+                           max(xlim_round[0],0):max(xlim_round[1],0)].copy()
     tmp_trim = tmp_trim.flatten()
     range_spec = tmp_trim[np.isfinite(tmp_trim)].copy()
     range_spec = np.abs(range_spec)
@@ -298,7 +303,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             slit_angle = galaxy.spec1D.slit_PA - galaxy.pstamp.img_PA
 
     # Offset in slit coords -- pixels
-    y0_off = galaxy.spec2D.yoffset/instrument.pixscale
+    y0_off = galaxy.spec2D.yoffset/pscale
 
     ##############
     # Corner coords: slit rectangle
-- 
2.43.0


From ffbae066a86713c91ab37a1bc2dd50ba715e3dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 43/54] fix: the best-fit plot works before a best fit is set

---
 misfit/plot/plot_bestfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index e5ded5f..5a3e3d5 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -76,7 +76,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
 
     #
     # Pstamp + slit plot, image convolved to spectrum resolution:
-    if fitEmis2D.kinModel.bestfit is not None:
+    if (fitEmis2D.kinModel is not None) and (fitEmis2D.kinModel.bestfit is not None):
         m0shift = fitEmis2D.kinModel.bestfit.theta[-2]
     else:
         m0shift = 0.
-- 
2.43.0


From 12f2ecc2931149fc20a07fa15b2dc9af9691d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 44/54] fix: the corner plot title is valid in mathtext

---
 misfit/plot/plot_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 3e8e10f..94a1c2c 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -147,7 +147,7 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
     # Annotate R_E, n
     if usetex:
-        galparam_str = r'$n=%0.2f$, $R_E=%0.2f "$' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
+        galparam_str = r'$n=%0.2f$, $R_E=%0.2f^{\prime\prime}$' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
     else:
         galparam_str = r'n=%0.2f, RE=%0.2f "' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
     fig.gca().annotate(galparam_str, (0.01, 0.), xycoords='figure fraction',
-- 
2.43.0


From 4b53bbd2af81bf82e345e6eec9a0e9b87b539d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 45/54] fix: rounding of the slit width does not break square
 IFU fields

---
 misfit/model/aper_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 3fb09a6..ae0dd2a 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -687,7 +687,7 @@ class AperModel2D(object):
         self.n_pix_x = int(np.ceil(self.instrument.slit_width/self.delt_y))
         # Check for case where slit width = slit length:
         #    make sure rounding errors don't end up with diff nPix.
-        if self.y_aper == self.instrument.slit_width:
+        if np.isclose(self.y_aper, self.instrument.slit_width, rtol=1.e-9, atol=0.):
             if self.n_pix_x != self.n_pix_y:
                 self.n_pix_x = self.n_pix_y
         self.delt_x = self.instrument.slit_width/self.n_pix_x
-- 
2.43.0


From 99cc376a826cff6fbaf9164119fe50de909e514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:43 +0000
Subject: [PATCH 46/54] fix: position-wavelength shifts start the fits of the
 rows' light from a width the grid resolves

With a width of a tenth of the slit the starting Gaussian falls between the
pixels of coarse grids: the fit cannot leave it, and rows of light symmetric
about the slit's axis were shifted by up to half a slit.
---
 misfit/model/kin_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 8ac288b..73eb3df 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -530,7 +530,7 @@ def lmfit_gaussian(x_arr, y_arr, y_err=None):
     params = lmfit.Parameters()
     params.add('mu', value=x_arr[y_arr.argmax()], vary=True)
     params.add('A', value=y_arr.max(), vary=True)
-    params.add('FWHM', value=(x_arr.max()-x_arr.min())/10., vary=True, min=0.)
+    params.add('FWHM', value=(x_arr.max()-x_arr.min())/2., vary=True, min=0.)
 
     result = lmfit.minimize(gaus_residual_FWHM, params,
                 args=(x_arr, y_arr, y_err))
-- 
2.43.0


From 0e1f0ee3d6a81d4d666b46f9feb29acde133813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:43 +0000
Subject: [PATCH 47/54] fix: PSF_convolve takes the 2D kernels of the 1D
 apertures, too

AperModel1DRot with do_position_wave_shift and a PSF raised a ValueError.
---
 misfit/model/kin_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 73eb3df..2f7f39e 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -366,6 +366,8 @@ def PSF_convolve(spectra_cube, PSF):
 
     if PSF.PSF_FWHM > 0.:
         kern3D = PSF._conv_stamp
+        if kern3D.ndim == 2:
+            kern3D = np.array([kern3D])    # from the 1D apertures
 
         spectra_cube_see_conv = fftconvolve(spectra_cube, kern3D, mode='same')
         # Conserve total flux:
-- 
2.43.0


From 247531c80a78bcec5f9a346d5723d33c50b5bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:06 +0000
Subject: [PATCH 48/54] fix: setup_model: the prior follows the settings of the
 fit when they changed since it was made

---
 misfit/fit/fit2D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index a53f643..f0545e6 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -384,6 +384,9 @@ class FitEmissionLines2D(object):
 
         if ((self.thetaPrior.name == 'ThetaPriorFlat') & \
                 (self.thetaSettings.theta_bounds is not None)):
+            # Keep the prior in step with the current settings, if they changed since it was made:
+            self.thetaPrior.theta = copy.deepcopy(self.kinModel.theta)
+            self.thetaPrior.theta_vary = copy.deepcopy(self.kinModel.theta_vary)
             self.thetaPrior.theta_bounds = copy.deepcopy(self.thetaSettings.theta_bounds)
 
 
-- 
2.43.0


From aea693b5b66dc501be5441de365bef95b3c70ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 49/54] fix: velocity and dispersion profiles use the settings
 given when they are made

---
 misfit/model/kin_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/model/kin_classes.py b/misfit/model/kin_classes.py
index 74e19bb..a2f126c 100644
--- a/misfit/model/kin_classes.py
+++ b/misfit/model/kin_classes.py
@@ -66,6 +66,8 @@ class VelArctanProfile(VelProfile):
         self.theta = np.array([0.,0.])
         self.name = 'VelArctanProfile'
 
+        self.setAttr(**kwargs)
+
     def vel(self, r, z):
         try:
             return 2./np.pi * self.theta[0] * np.arctan( r /self.theta[1] )
@@ -90,6 +92,8 @@ class DispConstProfile(DispProfile):
         self.theta = np.array([0.])
         self.name = 'DispConstProfile'
 
+        self.setAttr(**kwargs)
+
     def sigma(self, r, z):
         return 0.*r + self.theta[0]
 
-- 
2.43.0


From 3f2231063ae3cc9c9d8b335651b888c8043718dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 50/54] fix: EmissionLinesSpectrum1DModel has a default
 continuum order

---
 misfit/model/emission_lines_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 28f1fcf..4f4de40 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -73,7 +73,7 @@ class EmissionLinesSpectrum1DModel(object):
         self.flux_arr = None    # flux of brightest line
         self.cont_coeff = None
 
-        self.cont_order = None     # Order of the continuum fit (all in 1.e-18 flam): 0 is intercept only, etc
+        self.cont_order = 1        # Order of the continuum fit (all in 1.e-18 flam): 0 is intercept only, etc
         self.shape1D = 'gaussian'  # eg, use
 
         self.obswave_arr = None
-- 
2.43.0


From e0de51eeb50af0644c909d48d7c7ad6d186b13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 51/54] fix: AperModel1DRot can be calculated again with
 position-wavelength shifts

---
 misfit/model/aper_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index ae0dd2a..7053d65 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -421,7 +421,7 @@ class AperModel1DRot(AperModel1DBase):
 
         # Add position offset, if calculating that shift:
         if self.do_position_wave_shift or self.do_inst_res_conv_effective:
-            if (self.delta_position_velspace is None) or (self.inst_disp_wave is None):
+            if (self.delta_position_velspace is None) or (self.inst_disp_vel is None):
                 #################
                 # Exclude the padded regions ????
                 wh_in_slit_x = np.array(range(self.padX,self.n_pix_x+self.padX))
-- 
2.43.0


From 1801a4f36f8ab31b7dc9a2587a6362d02b1ba28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 52/54] fix: 1D aperture models use their own PSF kernel when
 calculated again

---
 misfit/model/aper_model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 7053d65..87d6ef8 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -167,8 +167,12 @@ class AperModel1DDisp(AperModel1DDispBase):
         y_off_arc = self.y_arr-cent[1]
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
         self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self.conv_stamp = conv_stamp
 
     def calc_aper_correction(self):
+        # The instrument may be shared: make sure it's the kernel for this grid.
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.sigma_ap = kfuncs.sigma_aper_dispersion(aperModel1DDisp = self,
                         re_arcsec=self.galaxy.re_arcsec_circ,
                         re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
@@ -206,8 +210,12 @@ class AperModel1DDispMisalign(AperModel1DDispBase):
         y_off_arc = self.y_arr-cent[1]
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
         self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self.conv_stamp = conv_stamp
 
     def calc_aper_correction(self):
+        # The instrument may be shared: make sure it's the kernel for this grid.
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.sigma_ap = kfuncs.sigma_aper_dispersion_misalign(aperModel1DDisp = self,
                         re_arcsec=self.galaxy.re_arcsec_circ,
                         re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
@@ -273,9 +281,13 @@ class AperModel1DRot(AperModel1DBase):
 
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
         self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self.conv_stamp = conv_stamp
 
 
     def calc_aper_correction(self, recalc=False):
+        # The instrument may be shared: make sure it's the kernel for this grid.
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.update_kinProfile()
 
 
-- 
2.43.0


From b74f1f74be8e8d4b43f83cdd94a68374348986ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:48 +0000
Subject: [PATCH 53/54] fix: FitEmissionLines1D uses the initial redshift given

The documented argument was always replaced by the redshift of the galaxy, by
setAttr() as well, which also discarded the fitted redshift.
---
 misfit/fit/fit1D.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index a3b0930..cf4c22b 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -159,7 +159,9 @@ class FitEmissionLines1D(object):
         """Set/update arbitrary attribute list with kwargs"""
         self.__dict__.update(dict([(key, kwargs.get(key)) for key in kwargs if key in self.__dict__]))
 
-        self.z = self.galaxy.z
+        # Initial guess: of the galaxy, if not given
+        if ('galaxy' in kwargs) and (kwargs.get('z') is None):
+            self.z = self.galaxy.z
 
         if self.shape1D != 'gaussian':
             raise ValueError('Non-gaussian line profiles are currently not supported')
@@ -218,7 +220,8 @@ class FitEmissionLines1D(object):
         del_z = 1.e-3*self.del_obs_lam/self.restwave_arr[0][0]
         if np.abs(self.z - self.galaxy.z) < del_z:
             return self.galaxy.z + del_z
-        return self.z
+        # (nor at, or outside, the bounds, where it would vanish as well)
+        return np.clip(self.z, self.galaxy.z - 990.*del_z, self.galaxy.z + 990.*del_z)
 
     #
     def make_params(self, flux_bound=False, vel_disp_bound=False):
-- 
2.43.0


From a0495794eaac49783f8e0f81e4dc526223b22aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:48 +0000
Subject: [PATCH 54/54] fix: FitEmissionLines1D can be fit again with a higher
 continuum order

The coefficients of the earlier fit were too few for the parameters: IndexError.
---
 misfit/fit/fit1D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index cf4c22b..fe92115 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -351,6 +351,9 @@ class FitEmissionLines1D(object):
             for i in range(self.cont_order+1):
                 cont_coeff_tmp = np.append(cont_coeff_tmp, 0.)
             self.cont_coeff = cont_coeff_tmp
+        elif len(self.cont_coeff) < self.cont_order+1:
+            # The continuum order has been increased since the last fit:
+            self.cont_coeff = np.append(self.cont_coeff, np.zeros(self.cont_order+1-len(self.cont_coeff)))
 
         params = self.make_params()
 
-- 
2.43.0

