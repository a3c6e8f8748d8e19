From 6e8029282d1f8915aaf8b33d107a3214abf875ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 01/41] fix: include the time window in the pulse grid cache
 key

---
 src/pynlo/light/PulseBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 0b9b249..ea117c5 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -146,7 +146,8 @@ class Pulse:
     def _get_NPTS(self):
         return self._n
     def _get_hash(self):
-        return str(self._centerfrequency)+str(self.NPTS)    
+        return ','.join((str(self._centerfrequency), str(self.NPTS),
+                         str(self._time_window)))
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
             return self._cache_W_Hz
-- 
2.43.0


From fe59a294ebfab7fa4727f663dea4888b1c4ee1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 02/41] fix: center_wavelength_mks is in metres

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index ea117c5..2063aca 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -137,7 +137,7 @@ class Pulse:
     def _get_center_wavelength_nm(self):
         return self._c_nmps / self._centerfrequency
     def _get_center_wavelength_mks(self):
-        return (self._c_nmps / self._centerfrequency )*1.0e9
+        return (self._c_nmps / self._centerfrequency )*1.0e-9
     def _get_center_frequency_THz(self):
         return self._centerfrequency        
     def _get_center_frequency_mks(self):
-- 
2.43.0


From c210986946daab2795d0dc3aefc81c21ea271a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 03/41] fix: set_AW reallocates the field when the number of
 points has changed

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 2063aca..bdcab1a 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -212,7 +212,7 @@ class Pulse:
         """
         if not self._ready:
             raise RuntimeError(self._not_ready_msg)
-        if self._AW is None:
+        if self._AW is None or len(self._AW) != self._n:
             self._AW = np.zeros((self._n,), dtype = np.complex128)
         self._AW[:] = AW_new
         
-- 
2.43.0


From 698738789332251c29f9819990e6ab5b55f0c0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 04/41] fix: intensity autocorrelation correlates the intensity
 with itself

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index bdcab1a..5e733a8 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -874,7 +874,7 @@ class Pulse:
             time grid.
             
         """  
-        return np.correlate(abs(self.AT)**2, abs(self.AT), mode='same')  
+        return np.correlate(abs(self.AT)**2, abs(self.AT)**2, mode='same')  
         
     def write_frog(self,
                  fileloc = 'broadened_er_pulse.dat', # default EDFA spectrum
-- 
2.43.0


From 2ac0c67c785ab273b0ab8ea3f8f0a10c22b9f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 05/41] fix: do not hand out the cached grid arrays themselves

---
 src/pynlo/light/PulseBase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 5e733a8..6560104 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -126,11 +126,11 @@ class Pulse:
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_nm(self):
         if (self.cache_hash == self._cache_wl_nm_hash):
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
         else:
            self._cache_wl_nm_hash = self.cache_hash
            self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
         return 2*np.pi*self._c_mks / self.W_mks
@@ -150,11 +150,11 @@ class Pulse:
                          str(self._time_window)))
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
         else:
             self._cache_W_Hz_hash = self.cache_hash
             self._cache_W_Hz                 =  self._W * 1e12
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
     def _get_W_THz(self):
-- 
2.43.0


From 8fb850e613ebf87c2d8814923df918daf7dc6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 06/41] fix: SincPulse with average power is a sinc pulse

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 222ed6d..588d441 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -114,7 +114,7 @@ class SincPulse(Pulse):
             # numpy.sinc is sin(pi*x)/(pi*x), so we divide by pi
             self.set_AT( np.sqrt(power) * np.sinc(self.T_ps/(T0_ps*np.pi)) ) 
         else:
-            self.set_AT( 1 / np.sinc(np.pi * self.T_ps/(T0_ps*np.pi)) )
+            self.set_AT( np.sinc(self.T_ps/(T0_ps*np.pi)) )
             self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))
         
         self.chirp_pulse_W(GDD, TOD)
-- 
2.43.0


From ba1cdd52dedacf0537e148c40e00459814dc8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 07/41] fix: NoisePulse has random phase, not random amplitude

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 588d441..bfa2c00 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -183,7 +183,7 @@ class NoisePulse(Pulse):
         self.set_time_window_ps(time_window_ps)        
         
         self.set_AW( 1e-30 * np.ones(self.NPTS) * np.exp(1j * 2 * np.pi *
-                 1j * np.random.rand(self.NPTS)))
+                 np.random.rand(self.NPTS)))
                  
 class CWPulse(Pulse):
     def __init__(self, avg_power, center_wavelength_nm, time_window_ps = 10.0,
-- 
2.43.0


From cfb84b31d93543b7848a7c46030ac5e85b16cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 08/41] fix: write_frog uses the pulse properties and honours
 flip_phase

---
 src/pynlo/light/PulseBase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 6560104..5b73f39 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -891,9 +891,11 @@ class Pulse:
         is multiplied by frep to calculate pulse energy"""       
         
         self.fileloc   = fileloc             
-        phase_data = np.unwrap(np.angle(self.get_AW()))
-        inten_data = np.abs(self.get_AW())
-        wavel_data = self.internal_wl_to_nm(self.wl_nm)
+        phase_data = np.unwrap(np.angle(self.AW))
+        if flip_phase:
+            phase_data = -1 * phase_data
+        inten_data = np.abs(self.AW)
+        wavel_data = self.wl_nm
         
         # Write pulse data file
         np.savetxt(self.fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) 
-- 
2.43.0


From 2486f3a08884b191c0d3c3a1a49f56b7ff7d45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 09/41] fix: post-processing DFG output leaves the solver's
 saved fields alone

---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index f1bcdaa..6245660 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -466,9 +466,9 @@ class dfg_problem:
         """
         npoints = self.veclength
         
-        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints]
-        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints]
-        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints]
+        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints].copy()
+        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints].copy()
+        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints].copy()
         zs       = solver_out.xsave[0:solver_out.count]
         print ('Pulse velocity is ~ '+str(self.approx_pulse_speed*1e-12)+'mm/fs' )
         print('ks: '+str(self.k_p_0)+' '+str(self.k_s_0)+' '+str(self.k_i_0))
-- 
2.43.0


From 0372c210033de251ddce0250db46bbeb0cdbf3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:46 +0000
Subject: [PATCH 10/41] fix: a crystal's cached indices belong to it and to its
 present angle and temperature

---
 src/pynlo/media/crystals/CrystalContainer.py | 1 +
 src/pynlo/media/crystals/XTAL_AgGaS.py       | 1 +
 src/pynlo/media/crystals/XTAL_AgGaSe2.py     | 1 +
 src/pynlo/media/crystals/XTAL_PPLN.py        | 2 ++
 4 files changed, 5 insertions(+)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b6739e6..7846c7c 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -38,6 +38,7 @@ class Crystal:
                             'damage_threshold_info' : ''}
     
     def __init__(self, params):                
+        self._cached_ns = {}
         if 'length' in params.keys():
             self._length = params['length']
         else:
diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 665c97a..10887ae 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -69,6 +69,7 @@ class AgGaSe2(Crystal):
         self.deff  = 8.69e-12 # from SNLO, original given in pm / V        
     def set_theta(self, angle):
         self.theta = angle
+        self._cached_ns = {}
     def n(self, wl_nm, axis = "mix"):        
         """ Axis specifies crystal axis, either o, e, or mix. If mix, class
             instances value for theta sets mixing angle (0 = pure ordinary). 
diff --git a/src/pynlo/media/crystals/XTAL_AgGaSe2.py b/src/pynlo/media/crystals/XTAL_AgGaSe2.py
index 905ed86..1a37931 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaSe2.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaSe2.py
@@ -63,6 +63,7 @@ class AgGaSe2(Crystal):
         self.deff  = 28.5e-12 # from SNLO, original given in pm / V        
     def set_theta(self, angle):
         self.theta = angle
+        self._cached_ns = {}
     def n(self, wl_nm, axis = "mix"):        
         """ Axis specifies crystal axis, either o, e, or mix. If mix, class
             instances value for theta sets mixing angle (0 = pure ordinary). 
diff --git a/src/pynlo/media/crystals/XTAL_PPLN.py b/src/pynlo/media/crystals/XTAL_PPLN.py
index 601987a..f08311b 100644
--- a/src/pynlo/media/crystals/XTAL_PPLN.py
+++ b/src/pynlo/media/crystals/XTAL_PPLN.py
@@ -93,6 +93,7 @@ class PPLN(Crystal):
             for MgO-doped congruent and stoichiometric LiNbO3'
         """
         self.T = T
+        self._cached_ns = {}
         self.mode = 'PP'
         self.sellmeier_type = data_source
         
@@ -115,6 +116,7 @@ class PPLN(Crystal):
             self.pp = lambda x: p(x)
     def set_T(self, T_degC):
         self.T = T_degC
+        self._cached_ns = {}
         self.set_xtalT(T_degC)
         
     def calculate_poling_period(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, 
-- 
2.43.0


From 69641e4d93a94b5c4452bdc3a1735d1bd222e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 11/41] fix: a crystal's damage threshold is its own

---
 src/pynlo/media/crystals/CrystalContainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 7846c7c..dcb080f 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -39,6 +39,7 @@ class Crystal:
     
     def __init__(self, params):                
         self._cached_ns = {}
+        self._crystal_properties = dict(self._crystal_properties)
         if 'length' in params.keys():
             self._length = params['length']
         else:
-- 
2.43.0


From 6fb42fe7e3837dc2f49cde5ef8261e18032c8545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 12/41] fix: set_pp_chirp uses the crystal's length

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index dcb080f..26aa6e2 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -50,7 +50,7 @@ class Crystal:
             self._enable_caching = False
             
     def set_pp_chirp(self, start, stop):
-        self.pp   = lambda x: start + (stop-start) * x /self.length        
+        self.pp   = lambda x: start + (stop-start) * x /self._length        
     def get_pulse_k(self, pulse_instance, axis = None):
         """ Return vector of angular wavenumbers (m^-1) for the pulse_instance's 
             frequency grid inside the crystal """
-- 
2.43.0


From 3b48dd20786d393407f9b802c738d2da9082ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:59 +0000
Subject: [PATCH 13/41] fix: PPLN.set_pp accepts the plain period
 calculate_poling_period returns

---
 src/pynlo/media/crystals/XTAL_PPLN.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/XTAL_PPLN.py b/src/pynlo/media/crystals/XTAL_PPLN.py
index f08311b..947d9e1 100644
--- a/src/pynlo/media/crystals/XTAL_PPLN.py
+++ b/src/pynlo/media/crystals/XTAL_PPLN.py
@@ -112,8 +112,10 @@ class PPLN(Crystal):
     def set_pp(self, p) :
         if p.__class__ is tuple:
             self.pp = lambda x: p[0]
-        else:
+        elif callable(p):
             self.pp = lambda x: p(x)
+        else:
+            self.pp = lambda x: p
     def set_T(self, T_degC):
         self.T = T_degC
         self._cached_ns = {}
-- 
2.43.0


From 1357db28c098cb9f6c2fc4b4e691da4b428a8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 14/41] fix: the sign of a crystal's dispersion parameter D

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 26aa6e2..8adb2e1 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -102,7 +102,7 @@ class Crystal:
             standard photonic engineering units ps/nm/km"""        
         fn = lambda x: self.n(x, axis)
         d2n_dl2 = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 2, order = 11)
-        D1      = (wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
+        D1      = -1.0 * (wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
         D       = D1 * 1.0e12
         return D    
     def calculate_D_fs_um_mm(self, wavelengths_nm, axis = None):
-- 
2.43.0


From 484104a618f9b81277852a5e7352a5fa1f581840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:08 +0000
Subject: [PATCH 15/41] fix: XTAL_AgGaS can be imported on Python 3

---
 src/pynlo/media/crystals/XTAL_AgGaS.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 10887ae..ffeccca 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -25,7 +25,6 @@ from __future__ import print_function
 
 import numpy as np
 from pynlo.media.crystals.CrystalContainer import Crystal
-import exceptions 
 
 class AgGaSe2(Crystal):
     def __init__(self, theta = 0.0, **params):
@@ -97,7 +96,7 @@ class AgGaSe2(Crystal):
             return no
         elif axis == 'e':
             return ne
-        raise exceptions.ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
+        raise ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
     def phasematch(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, return_wavelength = False):
         """ Phase match mixing between pump (aligned to a mix of ne and no) and
             signal and idler (aligned to ordinary axis.)"""
@@ -134,7 +133,7 @@ class AgGaSe2(Crystal):
         if x < 0:
             x = ( -b - np.sqrt(b**2-4*a*c) )/ (2.0  * a)
         if np.isnan(np.arccos(x)) :
-            raise exceptions.AttributeError('No phase matching condition.')
+            raise AttributeError('No phase matching condition.')
         theta = np.arccos(x)
         print('Angle set to ',360*theta / (2.0*np.pi) )
         if RET_WL and return_wavelength:
-- 
2.43.0


From ad0cb7b2b2767b7a352b8d7cfd95508a183e6096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 16/41] fix: do not hand out a crystal's cached indices
 themselves

---
 src/pynlo/media/crystals/CrystalContainer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 8adb2e1..41e3740 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -64,13 +64,13 @@ class Crystal:
             frequency grid inside the crystal """
         if self._enable_caching:
             if pulse_instance.cache_hash + str(axis) in self._cached_ns.keys():
-                return self._cached_ns[pulse_instance.cache_hash + str(axis)]
+                return np.copy(self._cached_ns[pulse_instance.cache_hash + str(axis)])
             else:
                 if axis is None:
                     ns = self.n(pulse_instance.wl_nm)
                 else:
                     ns = self.n(pulse_instance.wl_nm, axis)
-                self._cached_ns[pulse_instance.cache_hash + str(axis)]= ns
+                self._cached_ns[pulse_instance.cache_hash + str(axis)]= np.copy(ns)
         else:
             if axis is None:
                 ns = self.n(pulse_instance.wl_nm)
-- 
2.43.0


From 737cc92f98cd1f5134a2cbb66f158b4a1c1178f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 17/41] fix: each fiber has its own specifications

---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 514bb4e..43482d1 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -61,6 +61,7 @@ class FiberInstance:
         self.c_mks = constants.speed_of_light
         self.c = constants.speed_of_light * 1e9/1e12 # c in nm/ps
         self.is_simple_fiber = False
+        self.fiberspecs = {}
         self.fiberloader = JSONFiberLoader.JSONFiberLoader(fiber_db, 
                                                            fiber_db_dir)
         self.dispersion_changes_with_z = False
@@ -70,7 +71,7 @@ class FiberInstance:
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
         self.fibertype = fibertype
-        self.fiberspecs = self.fiberloader.get_fiber(fibertype)
+        self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
         self.length = length
         self.betas = np.array([0])
         self.gamma = self.fiberspecs["gamma"]
-- 
2.43.0


From 2787fca36ebd4ac3c070a0a341df60cb782817e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:09 +0000
Subject: [PATCH 18/41] fix: fibers in the database with GVD in ps^n/m keep
 their dispersion

---
 src/pynlo/media/fibers/fiber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 43482d1..a8c58d4 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -124,6 +124,8 @@ class FiberInstance:
             # If in km^-1 units, scale to m^-1
             if self.dispersion_gvd_units == 'ps^n/km':
                 self.betas = np.array(self.fiberspecs["dispersion_data"]) / 1e3
+            else:
+                self.betas = np.array(self.fiberspecs["dispersion_data"])
             return 1
         else:
             print( "Error: no dispersion found.")
-- 
2.43.0


From 747595754933ccdad107eb21579c05e0daeb1cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 19/41] fix: effective-index dispersion uses the speed of light

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index a8c58d4..39837f5 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -282,7 +282,7 @@ class FiberInstance:
             # self.x is the wavelength in nm
             # self.y is the refractive index (unitless)
             
-            supplied_W_THz = 2 * np.pi * 1e-12 * 3e8 / (self.x*1e-9)
+            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (self.x*1e-9)
             supplied_betas = self.y * 2 * np.pi / (self.x * 1e-9)
             
             # InterpolatedUnivariateSpline wants increasing x, so flip arrays
-- 
2.43.0


From 9657f9b10b1331c9a737da2690f92e9f1e3410e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 20/41] fix: gain spectra use the pulse's repetition rate

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 39837f5..994cb77 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -327,7 +327,7 @@ class FiberInstance:
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
 
-                    g = lambda k: np.abs(output_power - pulse.frep_Hz * pulse.dT_mks*
+                    g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
                                             IFFT_t( pulse.AW *
                                                 np.exp(k*gain_spec*self.length/2.0)
-- 
2.43.0


From 149d7ad8752ef775ddf118e4dbf90a516a9c9fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:22 +0000
Subject: [PATCH 21/41] fix: D tabulations can be read from a file

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 5499a6c..a95fc26 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -36,7 +36,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     # Expand about lambda0
     makePlots = 0
     if DDataIsFile:
-        DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
+        DTab = np.genfromtxt(DData,delimiter=',',skip_header=1)
     else:
         DTab = DData[:]
             
-- 
2.43.0


From 6493377f35985524ed4280b5251572dbd96532a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:26 +0000
Subject: [PATCH 22/41] fix: DTabulationToBetas leaves the caller's table alone

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index a95fc26..0084cde 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -38,7 +38,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     if DDataIsFile:
         DTab = np.genfromtxt(DData,delimiter=',',skip_header=1)
     else:
-        DTab = DData[:]
+        DTab = np.array(DData, dtype=float)
             
     # Units of D are ps/nm/km
     # Convert to s/m/m 
-- 
2.43.0


From 3337a833acb41c116be3d67436f5c7014ac50b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:49 +0000
Subject: [PATCH 23/41] fix: SSFM.propagate runs with current numpy (np.float
 is gone)

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 91cc905..091a04e 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -524,7 +524,7 @@ class SSFM:
         
 
         for i in range(n_steps):                        
-            print ("Step:", i, "Distance remaining:", fiber.length * (1 - np.float(i)/n_steps) )
+            print ("Step:", i, "Distance remaining:", fiber.length * (1 - float(i)/n_steps) )
             
             if reload_fiber_each_step:
                 self.load_fiber_parameters(pulse_in, fiber, output_power, z=i*delta_z) 
-- 
2.43.0


From 6875be0bad75212b69ed43accee045aaad98341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:53 +0000
Subject: [PATCH 24/41] fix: SSFM does not step beyond the requested distance

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 091a04e..97e07ca 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -366,7 +366,7 @@ class SSFM:
             dist -= 2.0*old_dz
             self.iter += 1
 #            printf("-> [%d] dz = %g dist = %g (old_dz = %g) (z = %g)\n",n,dz,dist,old_dz,self.z)
-            if (2.0*dz > dist) and (dist>2.0*self.dz_min):
+            if (2.0*dz > dist) and (dist>0.0):
                 force_last_dz = True
                 return_dz = dz
                 dz = dist/2.0
-- 
2.43.0


From d7a120a8a1fb47fc0c413303c2407bdc00ba0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 25/41] fix: METHOD_SSFM applies the whole linear step

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 97e07ca..98ac1be 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -379,11 +379,11 @@ class SSFM:
     def Advance(self,A,dz,direction):
         if self.method == SSFM.METHOD_SSFM:
             if direction==1:
-                A[:] = self.LinearStep(A,dz,direction)
+                A[:] = self.LinearStep(A,2.0*dz,direction)
                 return np.exp(dz*direction*self.NonlinearOperator(A))*A
             else:
                 A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
-                return self.LinearStep(A,dz,direction)
+                return self.LinearStep(A,2.0*dz,direction)
         elif self.method == SSFM.METHOD_RK4IP:
             return self.RK4IP(A,dz,direction)
 
-- 
2.43.0


From f7cbf53b0bbd05d8f8ae11e9bb0266b68c186af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:00 +0000
Subject: [PATCH 26/41] fix: calculate_coherence uses its seed, output power
 and reload arguments

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 98ac1be..2f6c1ec 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -581,12 +581,17 @@ class SSFM:
         """
         
         results = []
+        if random_seed is not None:
+            np.random.seed(random_seed)
+
         for num in range(0, num_trials):
 
             pulse = pulse_in.create_cloned_pulse()
             pulse.add_noise(noise_type=noise_type)
 
-            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps)
+            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps,
+                                                  output_power=output_power,
+                                                  reload_fiber_each_step=reload_fiber_each_step)
 
             results.append((y, AW, AT, pulse_in, pulse_out))
 
-- 
2.43.0


From 69d91c6c5e2de03e25b0d8520c1bbe906f208aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:32 +0000
Subject: [PATCH 27/41] fix: propagate_to_gain_goal uses the pulse's repetition
 rate

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 2f6c1ec..d5ce7a4 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -633,15 +633,15 @@ class SSFM:
                                                  1,
                                                  output_power = scalefactor *\
                                                                  power_goal)         
-        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep))
-        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep                                                                 
+        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
+        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep_mks                                                                 
         output_scale = scalefactor
         while abs(modeled_avg_power - power_goal) / power_goal > powertol:
             y, AW, AT, pulse_out = self.propagate(pulse_in, fiber,
                                                      1, output_power = 
                                                      power_goal * scalefactor_revised)
             modeled_avg_power_prev = modeled_avg_power
-            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep
+            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep_mks
             slope = (modeled_avg_power - modeled_avg_power_prev) /\
                             (scalefactor_revised - scalefactor)                            
             yint = modeled_avg_power_prev - slope*scalefactor    
-- 
2.43.0


From c3a7241c1819497b22bba2525ba77616a280394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:36 +0000
Subject: [PATCH 28/41] fix: propagate_to_gain_goal corrects the guess it was
 given

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index d5ce7a4..f162fe7 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -633,7 +633,7 @@ class SSFM:
                                                  1,
                                                  output_power = scalefactor *\
                                                                  power_goal)         
-        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
+        scalefactor_revised = scalefactor * (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
         modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep_mks                                                                 
         output_scale = scalefactor
         while abs(modeled_avg_power - power_goal) / power_goal > powertol:
-- 
2.43.0


From 046bfb05c1660416a53cd4e8c7e0ec8d7921652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:23 +0000
Subject: [PATCH 29/41] fix: the frequency-domain Raman response uses its own
 fraction f_R0

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index f162fe7..9c694b3 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -256,7 +256,7 @@ class SSFM:
         # Laserfoam raman function.
         TAU1 = self.tau_1
         TAU2 = self.tau_2
-        F_R = self.f_R
+        F_R = self.f_R0
         C = (TAU1**2+TAU2**2)/(TAU1*TAU2**2)        
         for i in range(pulse.NPTS):
             omega = self.omegas[i]
@@ -267,6 +267,7 @@ class SSFM:
         # More conventional way of generating this, via Dudley    
         tau1 = self.tau_1
         tau2 = self.tau_2
+        F_R = self.f_R
         T = pulse.T_ps
         RT     = np.zeros(pulse.NPTS, dtype = 'complex128')
         if self.USE_SIMPLE_RAMAN:
-- 
2.43.0


From 4c4a3ef55e6af60fb5a407d86a6f93179f02b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:40 +0000
Subject: [PATCH 30/41] fix: units of calc_compressor_dnphi_domega_n beyond
 first order

---
 src/pynlo/devices/grating_compressor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 8e85320..d5f18ca 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -150,8 +150,9 @@ class TreacyCompressor:
         dphidw = fn(ws)        
         y = signal.savgol_filter(dphidw, window_length = 11,
                              polyorder = 7, deriv = dispersion_order)
-        dw = (ws[1] - ws[0])*10**(-15*(1+dispersion_order))
-        return y[50]/(dw**dispersion_order)
+        dw = ws[1] - ws[0]
+        # convert from s^(n+1) to fs^(n+1)
+        return y[50]/(dw**dispersion_order) * 10.0**(15*(1+dispersion_order))
     
     
     def apply_phase_to_pulse(self, grating_separation_meters, pulse):
-- 
2.43.0


From 090fc8c58a5c1b6e1f5d84ad6d5baf75ebd05128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:48 +0000
Subject: [PATCH 31/41] fix: dense ODE output is saved at the requested
 positions

---
 src/pynlo/util/ode_solve/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index c43ea42..ba8777d 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -110,7 +110,7 @@ class Output:
         if not self.dense:
             e = AttributeError('Dense output is not set in Output!')
             raise e
-        if nstp == 1:
+        if nstp == -1:
             self.save(x,y)
             self.xout += self.dxout
         else:
-- 
2.43.0


From 8bd3be6f041827eb549caef5eae3653cd87ad465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:51 +0000
Subject: [PATCH 32/41] fix: an ODE Output that saves nothing can be used

---
 src/pynlo/util/ode_solve/steppers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index ba8777d..3865664 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -94,11 +94,11 @@ class Output:
         self.xsave[self.count]      = xout
         self.count += 1
     def save(self, x, y):
+        if self.kmax <= 0:
+            return
         if self.ysave.dtype != y.dtype:            
             errmsg = 'Integrand returns ',str(y.dtype),' but workspaces are initialized to ',str(self.ysave.dtype),'!'
             raise TypeError(errmsg)
-        if self.kmax <= 0:
-            return
         if self.count == self.kmax:
             self.resize()
         self.ysave[self.count, :]   = y
-- 
2.43.0


From dbef6f49e03c45a919b8ca94f4a2445b75809394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:55 +0000
Subject: [PATCH 33/41] fix: ODEs whose estimated error is zero can be
 integrated

---
 src/pynlo/util/ode_solve/dopr853.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0c68a69..0e5304d 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -170,7 +170,7 @@ class StepperDopr853(StepperBase):
         err2 = np.sum( pow(np.abs(self.yerr )/sk, 2) )
         err1 = np.sum( pow(np.abs(self.yerr2)/sk, 2) )
         deno = err1 + 0.01 * err2
-        if deno < 0.0:
+        if deno <= 0.0:
             deno = 1.0
         return abs(abs(h) * np.abs(err1) * np.sqrt(1.0 / (deno*self.n)))
         
\ No newline at end of file
-- 
2.43.0


From 8bde9573dcfdbd74b3d0181265ee5c773940c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:58 +0000
Subject: [PATCH 34/41] fix: each ODE stepper has its own step size controller

---
 src/pynlo/util/ode_solve/dopr853.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0e5304d..7625b30 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -32,9 +32,10 @@ class StepperDopr853(StepperBase):
     k2= None;k3= None;k4= None; k5= None;k6= None;k7= None;k8= None;k9= None;k10 = None
     rcont1= None;rcont2= None;rcont3= None;rcont4= None;rcont5= None;rcont6= None
     rcont7= None;rcont8 = None
-    con = Controller()
+    con = None
     def __init__(self, yy, dydxx, xx, atoll, rtoll, dens):
         StepperBase.__init__(self, yy,dydxx, xx, atoll, rtoll, dens)
+        self.con    = Controller()
         self.yerr2  = self.gen_array()
         self.k2     = self.gen_array()
         self.k3     = self.gen_array()
-- 
2.43.0


From 2fd38653873f32d7ce86ec25a3eb51c456922d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:48 +0000
Subject: [PATCH 35/41] fix: DFGWriter works with current PyTables, integer
 sizes and the pulse's repetition rate

---
 .../ThreeWaveMixing/multi_run_rw.py           | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 98fa86f..c8a5f1e 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -107,47 +107,47 @@ class DFGWriter:
             
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
-        npts           = odesolver.nvar / 3
+        npts           = odesolver.nvar // 3
         count          = odesolver.out.nsave
         
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
         data_shape = odesolver.out.ysave[0:count, 0 : npts].T.shape
-        pump_data = self.tables_file.createCArray(grp, 'pump', atom, data_shape)
+        pump_data = self.tables_file.create_carray(grp, 'pump', atom, data_shape)
         pump_data[:] = odesolver.out.ysave[0:count, 0 : npts].T
-        sgnl_data = self.tables_file.createCArray(grp, 'sgnl', atom, data_shape)      
+        sgnl_data = self.tables_file.create_carray(grp, 'sgnl', atom, data_shape)      
         sgnl_data[:] = odesolver.out.ysave[0:count, npts : 2 * npts].T
-        idlr_data = self.tables_file.createCArray(grp, 'idlr', atom, data_shape)
+        idlr_data = self.tables_file.create_carray(grp, 'idlr', atom, data_shape)
         idlr_data[:] = odesolver.out.ysave[0:count, 2*npts : 3 * npts].T
         
         # By the design of the pulse class, the three things we need are center
         # wavelength, time window, and rep rate (N points is set by the array sizes)
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_twind = self.tables_file.createCArray(grp, 'pump_Twind', atom, data_shape)
+        pump_twind = self.tables_file.create_carray(grp, 'pump_Twind', atom, data_shape)
         pump_twind[:] = integrand.pump.time_window_ps
-        sgnl_twind = self.tables_file.createCArray(grp, 'sgnl_Twind', atom, data_shape)
+        sgnl_twind = self.tables_file.create_carray(grp, 'sgnl_Twind', atom, data_shape)
         sgnl_twind[:] = integrand.sgnl.time_window_ps
-        idlr_twind = self.tables_file.createCArray(grp, 'idlr_Twind', atom, data_shape)
+        idlr_twind = self.tables_file.create_carray(grp, 'idlr_Twind', atom, data_shape)
         idlr_twind[:] = integrand.idlr.time_window_ps
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_wlc = self.tables_file.createCArray(grp, 'pump_center_nm', atom, data_shape)
+        pump_wlc = self.tables_file.create_carray(grp, 'pump_center_nm', atom, data_shape)
         pump_wlc[:] = integrand.pump.center_wavelength_nm
-        sgnl_wlc = self.tables_file.createCArray(grp, 'sgnl_center_nm', atom, data_shape)
+        sgnl_wlc = self.tables_file.create_carray(grp, 'sgnl_center_nm', atom, data_shape)
         sgnl_wlc[:] = integrand.sgnl.center_wavelength_nm
-        idlr_wlc = self.tables_file.createCArray(grp, 'idlr_center_nm', atom, data_shape)
+        idlr_wlc = self.tables_file.create_carray(grp, 'idlr_center_nm', atom, data_shape)
         idlr_wlc[:] = integrand.idlr.center_wavelength_nm
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        fr = self.tables_file.createCArray(grp, 'frep_Hz', atom, data_shape)
-        fr[:] = integrand.pump.frep_Hz
+        fr = self.tables_file.create_carray(grp, 'frep_Hz', atom, data_shape)
+        fr[:] = integrand.pump.frep_mks
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        para = self.tables_file.createCArray(grp, 'param', atom, data_shape)
+        para = self.tables_file.create_carray(grp, 'param', atom, data_shape)
         para[:] = param
         
         self.tables_file.flush()
-- 
2.43.0


From 65c545f34d52e90c9510d9f0a64234eabc12b7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:52 +0000
Subject: [PATCH 36/41] fix: DFGWriter saves the final position too

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index c8a5f1e..a37fe03 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -108,7 +108,7 @@ class DFGWriter:
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
         npts           = odesolver.nvar // 3
-        count          = odesolver.out.nsave
+        count          = odesolver.out.count
         
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
-- 
2.43.0


From 35eb77cdcee001a6a41c79ef1494676022d94a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:55 +0000
Subject: [PATCH 37/41] fix: DFGWriter replaces a parameter that already has
 runs

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index a37fe03..206da14 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -102,7 +102,7 @@ class DFGWriter:
             self.root = self.tables_file.create_group('/', param_name)
         except tables.NodeError:
             print ('Parameter "'+param_name+'" already in table; deleting existing data.')
-            self.tables_file.remove_node('/', param_name)
+            self.tables_file.remove_node('/', param_name, recursive=True)
             self.root = self.tables_file.create_group('/', param_name)
             
     def add_run(self,integrand, odesolver, param):
-- 
2.43.0


From 69756f9b49cae07794acf4c990d2a953156266ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:58 +0000
Subject: [PATCH 38/41] fix: DFGReader uses the repetition rate of each run

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 206da14..95390f1 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -53,6 +53,7 @@ class DFGReader:
             z_num = -1
             
         run = self.root_name+'/run'+str(run_num)
+        frep_Hz     = self.tables_file.get_node(run+'/frep_Hz')[0]
         
         # Read in and generate pump pulse
         pump_field  = self.tables_file.get_node(run+'/pump')[:,z_num]
@@ -63,7 +64,7 @@ class DFGReader:
         p.set_center_wavelength_nm(pump_center)
         p.set_time_window_ps(pump_Twind)
         p.set_AW(pump_field)
-        p.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        p.set_frep_MHz(frep_Hz * 1.0e-6)
         
         # Read in and generate signal pulse
         sgnl_field  = self.tables_file.get_node(run+'/sgnl')[:,z_num]
@@ -74,7 +75,7 @@ class DFGReader:
         s.set_center_wavelength_nm(sgnl_center)
         s.set_time_window_ps(sgnl_Twind)
         s.set_AW(sgnl_field)
-        s.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        s.set_frep_MHz(frep_Hz * 1.0e-6)
 
         # Read in and generate idler pulse
         idlr_field  = self.tables_file.get_node(run+'/idlr')[:,z_num]
@@ -85,7 +86,7 @@ class DFGReader:
         i.set_center_wavelength_nm(idlr_center)
         i.set_time_window_ps(idlr_Twind)
         i.set_AW(idlr_field)
-        i.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        i.set_frep_MHz(frep_Hz * 1.0e-6)
         
         return (p, s, i)
         
-- 
2.43.0


From 88eebb65a7cb396982046c9f5328f53e7a564486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:03 +0000
Subject: [PATCH 39/41] fix: field_classes works on Python 3 (no exceptions
 module)

---
 src/pynlo/interactions/ThreeWaveMixing/field_classes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
index c303d44..c95fc37 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
@@ -25,7 +25,6 @@ from __future__ import division
 from __future__ import print_function
 
 import numpy as np
-import exceptions
 
 PUMP = 0
 SGNL = 1
@@ -49,10 +48,10 @@ class beam_parameters:
         """ calculate overlap integral between fields A and B. A & B must be
         integers between 0-2 (0 = pump, 1 = signal, 3 = idler.)"""
         if (type(A) is not int) or (type(B) is not int):
-            e = exceptions.TypeError('A & B must both be integers.')
+            e = TypeError('A & B must both be integers.')
             raise e
         if A < 0 or A>3 or B<0 or B>3:
-            e = exceptions.ValueError('A & B must be in range [0,3].')
+            e = ValueError('A & B must be in range [0,3].')
             raise e
         return (self.waists[A]+self.waists[B]) / 2.0
         
-- 
2.43.0


From 6c5bff70a8b1ba5be356474419a325d6d7788ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:07 +0000
Subject: [PATCH 40/41] fix: calculate_overlap refuses every index that is no
 field

---
 src/pynlo/interactions/ThreeWaveMixing/field_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
index c95fc37..6da7c17 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
@@ -46,12 +46,12 @@ class beam_parameters:
         
     def calculate_overlap(self, A, B):
         """ calculate overlap integral between fields A and B. A & B must be
-        integers between 0-2 (0 = pump, 1 = signal, 3 = idler.)"""
+        integers between 0-2 (0 = pump, 1 = signal, 2 = idler.)"""
         if (type(A) is not int) or (type(B) is not int):
             e = TypeError('A & B must both be integers.')
             raise e
-        if A < 0 or A>3 or B<0 or B>3:
-            e = ValueError('A & B must be in range [0,3].')
+        if A < 0 or A>2 or B<0 or B>2:
+            e = ValueError('A & B must be in range [0,2].')
             raise e
         return (self.waists[A]+self.waists[B]) / 2.0
         
-- 
2.43.0


From 08abe5dc38cb0aa04b177fc21cae76fef1f677a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:10 +0000
Subject: [PATCH 41/41] fix: ThreeFields instances do not share k0s

---
 src/pynlo/interactions/ThreeWaveMixing/field_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
index 6da7c17..7813017 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
@@ -67,6 +67,7 @@ class ThreeFields:
     NPTS    = 0
     def __init__(self, NPTS):
         self.NPTS = NPTS
+        self.k0s  = [0.0, 0.0, 0.0]
         self.create_fields()        
     def create_fields(self):
         """ Allocate arrays for field k's and complex amplitudes."""
-- 
2.43.0

