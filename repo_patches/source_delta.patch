From 1a7ef3256c985f8056d0bd6170067148839938ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 01/44] fix: particles imports integrators that do not exist,
 so no particle can be created

---
 particles/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 75db7ed..28a10a8 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -12,8 +12,8 @@ import os
 import environment
 from common import GRID, UNITS, kinematics, statistics as STATISTICS
 from common.integrators import (
-    adams_bashforth_correction, adams_moulton_solver, implicit_euler, backward_differentiation, heun_method,
-    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER, MAX_BACKWARD_DIFF_ORDER
+    adams_bashforth_correction, adams_moulton_solver, implicit_euler,
+    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER
 )
 from common.utils import Dynamic2DArray, DynamicRecArray
 from scipy.integrate import simps
-- 
2.43.0


From 044df7e87c68d9fcb6ae6ad7cd55658c94889c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 02/44] fix: collision integral returned the new distribution
 instead of its derivative

---
 particles/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 28a10a8..38be8ca 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -320,8 +320,9 @@ class DistributionParticle(AbstractParticle):
             # Adams-Moulton method
             fs = list(self.data['collision_integral'][-MAX_ADAMS_MOULTON_ORDER:])
 
-            I_coll = adams_moulton_solver(y=self.distribution(ps), fs=fs,
-                                            A=AB, B=B, h=self.params.h)
+            # `AB` is the full collision term $A + B f$ of the current step, so the solver is\
+            # applied to the increment of the distribution function
+            I_coll = adams_moulton_solver(y=0., fs=fs, A=AB, B=B, h=self.params.h) / self.params.h
 
             # # Backward differentiation method
             # ys = list(self.data['distribution'][-MAX_BACKWARD_DIFF_ORDER:])
-- 
2.43.0


From a081be67dc60f9269cd028f03f5d63b08bf26fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:44 +0000
Subject: [PATCH 03/44] fix: linear and cubic interpolation used the grid
 interval next to the one containing the point

---
 common/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index cff3255..26ce7a3 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -310,12 +310,15 @@ def linear_interpolation(function, grid):
     def interpolation(x):
         index = numpy.searchsorted(grid, x)
 
-        if index >= len(grid) - 1:
+        if index >= len(grid):
             return function[len(grid) - 1]
 
         if x == grid[index]:
             return function[index]
 
+        # `searchsorted` yields the right end of the interval containing `x`
+        index = max(index - 1, 0)
+
         # Determine the closest grid points
         i_low = index
         x_low = grid[i_low]
@@ -336,12 +339,15 @@ def cubic_interpolation(function, grid):
     def interpolation(x):
         index = numpy.searchsorted(grid, x)
 
-        if index >= len(grid) - 1:
+        if index >= len(grid):
             return function[len(grid) - 1]
 
         if x == grid[index]:
             return function[index]
 
+        # `searchsorted` yields the right end of the interval containing `x`
+        index = max(index - 1, 0)
+
         if index == 0 or index == len(grid) - 2:
             # Determine the closest grid points
             i_low = index
-- 
2.43.0


From ccee0b3828c606756ba406ade81e70147a341299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 04/44] fix: record table returned rows beyond its end for
 negative indices

---
 common/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 2d602ab..07e032b 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -247,10 +247,7 @@ class DynamicRecArray(object):
     def __getitem__(self, index):
         if index in self.columns:
             return self._data[index][:self.length]
-        index = int(index)
-        if index < 0:
-            index = self.length+1-index
-        return self._data[:][index]
+        return self.data[int(index)]
 
     def append(self, rec):
         if isinstance(rec, dict):
-- 
2.43.0


From 7025d41c7d8e41920c84ec9d92551fe08a7302bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 05/44] fix: boolean settings could not be switched off, nor
 typed when off by default

---
 environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/environment.py b/environment.py
index 730d871..fbb0fc9 100755
--- a/environment.py
+++ b/environment.py
@@ -61,7 +61,10 @@ def get(name):
     default = defaults.get(name)
     val = os.environ.get(name, default)
 
-    if default:
+    if isinstance(default, bool):
+        if not isinstance(val, bool):
+            val = val.strip().lower() not in ('', '0', '-1', 'f', 'false', 'n', 'no', 'off')
+    elif default is not None:
         typ = type(default)
         val = typ(val)
 
-- 
2.43.0


From 691363f69cdadbe76d906e711e9a6f9956a21b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 06/44] fix: all universes of a process shared one evolution
 table

---
 evolution.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/evolution.py b/evolution.py
index c0506af..7df2126 100755
--- a/evolution.py
+++ b/evolution.py
@@ -33,17 +33,7 @@ class Universe(object):
 
     step_monitor = None
 
-    data = utils.DynamicRecArray([
-        ['aT', 'MeV', UNITS.MeV],
-        ['T', 'MeV', UNITS.MeV],
-        ['a', None, 1],
-        ['x', 'MeV', UNITS.MeV],
-        ['t', 's', UNITS.s],
-        ['rho', 'MeV^4', UNITS.MeV**4],
-        ['N_eff', None, 1],
-        ['fraction', None, 1],
-        ['S', 'MeV^3', UNITS.MeV**3]
-    ])
+    data = None
 
     def __init__(self, folder=None, params=None, max_log_rate=2):
         """
@@ -53,6 +43,18 @@ class Universe(object):
         self.particles = []
         self.interactions = []
 
+        self.data = utils.DynamicRecArray([
+            ['aT', 'MeV', UNITS.MeV],
+            ['T', 'MeV', UNITS.MeV],
+            ['a', None, 1],
+            ['x', 'MeV', UNITS.MeV],
+            ['t', 's', UNITS.s],
+            ['rho', 'MeV^4', UNITS.MeV**4],
+            ['N_eff', None, 1],
+            ['fraction', None, 1],
+            ['S', 'MeV^3', UNITS.MeV**3]
+        ])
+
         self.clock_start = time.time()
         self.log_throttler = utils.Throttler(max_log_rate)
 
-- 
2.43.0


From 78b30a0c7ae1c28dea19cea862a97fbd4ab4a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 07/44] fix: fast-decaying species failed on every collision
 integral

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index eb87f66..2eb3f37 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -411,7 +411,7 @@ def Icoll_fast_decay(particle, ps):
 
     for index, Ff in enumerate(Ffs_temp):
         integral = particle.collision_integrals[index]
-        if utils.reaction_type(integral.reaction).DECAY: # line not necessary
+        if utils.reaction_type(integral).DECAY: # line not necessary
             sym = ''.join([item.specie.symbol for item in integral.reaction[1:]])
             for key in integral.reaction[0].specie.BR:
                 if Counter(sym) == Counter(key):
-- 
2.43.0


From d53d16c64e53456fc9eeb8aa04279fee062c6519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 08/44] fix: four-particle creation and decay integrals failed
 on the truth value of an array

---
 interactions/four_particle/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 186f4ef..31734da 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -188,7 +188,7 @@ class FourParticleIntegral(BoltzmannIntegral):
         fullstack = numpy.append(fullstack, slice_2)
 
         scaled_output = kinematics.scaling(self, fullstack, constant)
-        if not scaled_output:
+        if scaled_output is False:
             return kinematics.return_function(self, fullstack)
         else:
             fullstack = scaled_output
-- 
2.43.0


From a54fd313c9bfc989472db79a491f1a9c9b66ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 09/44] fix: collision integral interpolation on fine grids
 passed a float number of samples

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 2eb3f37..de16299 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -353,7 +353,7 @@ def interpolation_4p(interaction, ps, slice_1):
     grid = interaction.particle.grid
     if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV:
         steps = np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV))
-        interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))
+        interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], int(steps)))
         ps = ps[interp_pos]
         interpolate = True
     return ps, interpolate
-- 
2.43.0


From 318ccf9cd0ff672fe04153702e244abea48c9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 10/44] fix: heavy species used the low-temperature number of
 degrees of freedom at decoupling

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index de16299..4655dd8 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -159,7 +159,7 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
     if mass > CONST.lambda_QCD:
         g_star = 61.75
-    if muon_mass < mass < CONST.lambda_QCD:
+    elif muon_mass < mass < CONST.lambda_QCD:
         g_star = 14.25
     else:
         g_star = 10.75
-- 
2.43.0


From b0160b303171590547094a98cd7211de85936393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 11/44] fix: oscillations_map failed when called without matter
 potentials

---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 8c60e28..8be0c29 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -346,7 +346,7 @@ class particles(object):
         }
 
         @staticmethod
-        def oscillations_map(MSW_12=None, MSW_13=None, matter_effects=True):
+        def oscillations_map(MSW_12=0., MSW_13=0., matter_effects=True):
 
             # angles=(0.5905, 0., 0.152346) # theta_12, theta_23, theta_13
             theta_12 = 0.57636
-- 
2.43.0


From 4e98db7ebb729acdb9f1d04d351d5f7d84661ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 12/44] fix: semi-analytic BBN monitor failed to read the
 baryonic rates

---
 semianalytic.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/semianalytic.py b/semianalytic.py
index 640e4c1..addfcbf 100644
--- a/semianalytic.py
+++ b/semianalytic.py
@@ -8,10 +8,8 @@ def step_monitor(universe):
     from copy import deepcopy
 
     if not hasattr(universe, 'neutron_decoupling_parameters') and len(universe.kawano_data):
-        print([field[0] for field in universe.kawano_data.data.dtype[-6:]])
-        rates = universe.kawano_data.data[-1][
-            [field[0] for field in universe.kawano_data.data.dtype[-6:]]
-        ]
+        rates = [universe.kawano_data.data[-1][column]
+                 for column in universe.kawano_data.columns[-6:]]
         neutron_equilibration = (sum(rates[0::2]) / sum(rates[1::2]))
         if neutron_equilibration > 10 or neutron_equilibration < 0.1:
             universe.neutron_decoupling_parameters = deepcopy(universe.params)
-- 
2.43.0


From beb576f5ab82a1367c659fb00e68fa0e51025679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 13/44] fix: baryonic rates could not be recorded by a universe
 without an output folder

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 7df2126..25c26cd 100755
--- a/evolution.py
+++ b/evolution.py
@@ -349,7 +349,8 @@ class Universe(object):
 
             if self.log_throttler.output:
                 print("KAWANO", self.kawano_data.row_repr(-1, names=True))
-            self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
+            if self.kawano_log:
+                self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
 
     def init_log(self, folder=''):
         self.logfile = utils.ensure_path(os.path.join(self.folder, 'log.txt'))
-- 
2.43.0


From 9ae9c0ac8cb2dd27b02abf3e3221de85d4340ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 14/44] fix: first order Adams-Moulton step failed for a
 non-empty history

---
 common/integrators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/integrators/__init__.py b/common/integrators/__init__.py
index 1860899..146ebc3 100644
--- a/common/integrators/__init__.py
+++ b/common/integrators/__init__.py
@@ -104,7 +104,7 @@ def adams_moulton_solver(y, fs, A, B, h, order=None):
         order = min(MAX_ADAMS_MOULTON_ORDER, len(fs) + 1)
 
     bs, divider = ADAMS_MOULTON_COEFFICIENTS[order]
-    fs = fs[-(order-1):] + [A]
+    fs = fs[len(fs) - (order - 1):] + [A]
     assert len(fs) == order, (len(fs), order)
 
     return (
-- 
2.43.0


From 416ca95f0cf8371f4f157cbcc12f58de55475a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 15/44] fix: charged vector meson decays used the mixing angle
 of an unrelated flavour

---
 library/NuMSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index d124624..9fde38b 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -322,7 +322,7 @@ class interactions(object):
                                                                kind=kind)
 
                         if particle.type == "vector":
-                            inters += cls.charged_vector_meson(theta=thetas[neutrino.flavour],
+                            inters += cls.charged_vector_meson(theta=thetas[lepton.flavour],
                                                                sterile=sterile,
                                                                lepton=lepton,
                                                                meson=particle,
-- 
2.43.0


From ebbf7388d84c7e7300d145f087d3e2823eab1396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 16/44] fix: metre was off by 2 pi and newton inconsistent with
 the other units

---
 common/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index 26ce7a3..6120338 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -28,8 +28,8 @@ class UNITS(object):
         UNITS.TeV = UNITS.GeV * 1e3
         UNITS.s = 1e22 / 6.582119 / UNITS.MeV
         UNITS.kg = 1e27 / 1.782662 * UNITS.GeV
-        UNITS.m = 1e15 / 1.239842 / UNITS.GeV
-        UNITS.N = 1e-5 / 8.19 * UNITS.GeV**2
+        UNITS.m = 1e15 / 0.1973270 / UNITS.GeV
+        UNITS.N = 1e-5 / 8.1194 * UNITS.GeV**2
 
         # Temperature: $10^9 K$
         UNITS.K9 = UNITS.MeV / 11.6045
-- 
2.43.0


From 3e6868d89a01a74f316cdb08403f4cb8c0866a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 17/44] fix: scattering integration bounds leaked between
 momenta handled by the same thread

---
 interactions/four_particle/cpp/integral.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 8390b80..8dc5ed3 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -613,8 +613,11 @@ std::vector<dbl> integration(
     // Determine the integration bounds
     auto reaction_type = get_reaction_type(reaction);
 
+    // Bounds of different momenta handled by the same thread have to be independent
+    dbl grid_max_1 = max_1;
+
     // Note firstprivate() clause: those variables will be copied for each thread
-    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type) firstprivate(min_1, max_1, min_2, max_2, max_3)
+    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type, grid_max_1) firstprivate(min_1, max_1, min_2, max_2, max_3)
     for (size_t i = 0; i < ps.size(); ++i) {
         dbl p0 = ps[i];
 
@@ -633,12 +636,7 @@ std::vector<dbl> integration(
             else {
                 min_1 = sqrt(min2);
             }
-            if (max_1 > 3. * min_1) {
-                max_1 = max_1;
-            }
-            else {
-                max_1 = 3. * min_1;
-            }
+            max_1 = std::max(grid_max_1, 3. * min_1);
         }
         if (reaction_type == Kinematics::CREATION) {
             if (reaction[3].specie.m == 0.) {continue; }
-- 
2.43.0


From 443a14d76994d3a7e84e8c727ccf6571f6a5b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 18/44] fix: temperature equation terms of heavy species
 overflowed with the Gauss-Legendre quadrature

---
 particles/IntermediateParticle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/particles/IntermediateParticle.py b/particles/IntermediateParticle.py
index 212a55a..a676ef1 100644
--- a/particles/IntermediateParticle.py
+++ b/particles/IntermediateParticle.py
@@ -131,8 +131,8 @@ def Int(particle, y_power=2):
     else:
         legendre = particle.dof / 2. / numpy.pi**2 * integrators.integrate_1D(
             lambda y: (
-                y**y_power * numpy.exp(particle.conformal_energy(y) / particle.params.aT)
-                / (numpy.exp(particle.conformal_energy(y) / particle.params.aT) + particle.eta)**2
+                y**y_power * numpy.exp(-particle.conformal_energy(y) / particle.params.aT)
+                / (1. + particle.eta * numpy.exp(-particle.conformal_energy(y) / particle.params.aT))**2
             ),
             (particle.grid.MIN_MOMENTUM, particle.grid.MAX_MOMENTUM)
         )[0]
-- 
2.43.0


From e5947e995d3caec7b8bf1dcceaee592db17440cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:40 +0000
Subject: [PATCH 19/44] fix: interpolation next to an empty grid point returned
 NaN in optimised builds

---
 interactions/four_particle/cpp/integral.cpp  | 6 ++++++
 interactions/three_particle/cpp/integral.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 8dc5ed3..1ecc817 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -83,6 +83,12 @@ dbl distribution_interpolation(const std::vector<dbl> &grid,
     dbl g_hi = distribution[i_hi],
         g_lo = distribution[i_lo];
 
+    // No particles can appear next to an empty grid point. Note that infinities and NaNs below
+    // cannot be detected reliably as the code is compiled with `-ffinite-math-only`
+    if (g_hi == 0. || g_lo == 0.) {
+        return 0.;
+    }
+
     g_hi = (1. / g_hi - eta);
     if (g_hi > 0) {
         g_hi = log(g_hi);
diff --git a/interactions/three_particle/cpp/integral.cpp b/interactions/three_particle/cpp/integral.cpp
index f5129a0..8f15a1a 100644
--- a/interactions/three_particle/cpp/integral.cpp
+++ b/interactions/three_particle/cpp/integral.cpp
@@ -83,6 +83,12 @@ dbl distribution_interpolation(const std::vector<dbl> &grid,
     dbl g_hi = distribution[i_hi],
         g_lo = distribution[i_lo];
 
+    // No particles can appear next to an empty grid point. Note that infinities and NaNs below
+    // cannot be detected reliably as the code is compiled with `-ffinite-math-only`
+    if (g_hi == 0. || g_lo == 0.) {
+        return 0.;
+    }
+
     g_hi = (1. / g_hi - eta);
     if (g_hi > 0) {
         g_hi = log(g_hi);
-- 
2.43.0


From 0e8bb6378a474c14dd32eb65eb541eebc12cdbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:45 +0000
Subject: [PATCH 20/44] fix: a record table with a single column was exported
 as one row

---
 common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils.py b/common/utils.py
index 07e032b..9f5d17c 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -294,6 +294,6 @@ class DynamicRecArray(object):
 
         numpy.savetxt(
             f,
-            self.data.view((numpy.float_, len(self._data.dtype))) / self.units[None, :],
+            self.data.view(numpy.float_).reshape(-1, len(self.columns)) / self.units[None, :],
             delimiter='\t', header='\t'.join(heading)
         )
-- 
2.43.0


From cb58f9266855417db1a984e1c44a85dcd3c31fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:54 +0000
Subject: [PATCH 21/44] fix: kaon and omega decays into charged pions violated
 charge conservation and produced no pions

---
 library/SM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index 8be0c29..7001d02 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -777,7 +777,7 @@ class interactions(object):
                                                     ME=matrix_elements['KaonMinPi0ElecNue'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[charged_kaon, charged_pion, charged_pion, charged_pion],
-                                                    antiparts=[False, True, False, False],
+                                                    antiparts=[False, False, False, False],
                                                     ME=matrix_elements['KaonMinPiPlusTwoPiMin'],
                                                     kind=kind)
             inters += cls.three_particle_meson_decay(parts=[charged_kaon, muon, neutrino_mu],
@@ -802,11 +802,11 @@ class interactions(object):
                                                 kind=kind)
 
             inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, electron, neutrino_e],
-                                                    antiparts=[False, True, False, True],
+                                                    antiparts=[False, False, False, True],
                                                     ME=matrix_elements['KaonLPiPlusElecNue'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, muon, neutrino_mu],
-                                                    antiparts=[False, True, False, True],
+                                                    antiparts=[False, False, False, True],
                                                     ME=matrix_elements['KaonLPiPlusMuonNumu'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[kaon_long, neutral_pion, neutral_pion, neutral_pion],
@@ -887,7 +887,7 @@ class interactions(object):
                 neutral_pion_decay(inters)
 
             inters += cls.four_particle_meson_decay(parts=[omega, charged_pion, charged_pion, neutral_pion],
-                                                    antiparts=[False, True, False, False],
+                                                    antiparts=[False, False, False, False],
                                                     ME=matrix_elements['OmegaPiPlusPiMinPi0'],
                                                     kind=kind)
             inters += cls.three_particle_meson_decay(parts=[omega, neutral_pion, photon],
-- 
2.43.0


From bcdfc4338056b3c7a8af1011f481376cd79597b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:54 +0000
Subject: [PATCH 22/44] fix: proton had the electric charge of an electron

---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 7001d02..63a7214 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -82,7 +82,7 @@ class particles(object):
             'mass': 938.272046 * UNITS.MeV,
             'dof': 4,
             'majorana': False,
-            'Q': -1
+            'Q': 1
         }
         neutral_pion = {
             'name': 'Neutral pion',
-- 
2.43.0


From cd0bd6409987e534bdcf21252161e85db389923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:13 +0000
Subject: [PATCH 23/44] fix: mass term of the zero momentum kernel did not
 vanish for a massless particle

---
 interactions/four_particle/cpp/Ds.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interactions/four_particle/cpp/Ds.cpp b/interactions/four_particle/cpp/Ds.cpp
index 8b521e1..951e09d 100644
--- a/interactions/four_particle/cpp/Ds.cpp
+++ b/interactions/four_particle/cpp/Ds.cpp
@@ -278,7 +278,8 @@ dbl Db(const std::array<dbl, 4> &p, const std::array<dbl, 4> &E, const std::arra
         dbl subresult = 0.;
 
         if (i * j == 0.) {
-            subresult += m[i+j] * (E[k] * E[l] * Db1(p[1], p[2], p[3]) + sksl * Db2(p[i+j], p[k], p[l]));
+            // m_0 / E_0 = 1 for a massive particle at rest; the term vanishes for a massless one
+            if (m[0] != 0.) subresult += m[i+j] * (E[k] * E[l] * Db1(p[1], p[2], p[3]) + sksl * Db2(p[i+j], p[k], p[l]));
         }
         else if (k * l == 0.) {
             subresult += m[i] * m[j] * E[k+l] * Db1(p[1], p[2], p[3]);
-- 
2.43.0


From 73688b4587ac2777488f9cfcd0877e148942e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:58 +0000
Subject: [PATCH 24/44] fix: rounding noise of the zero momentum kernel made
 collision integrals of massless particles fail

---
 interactions/four_particle/cpp/Ds.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/interactions/four_particle/cpp/Ds.cpp b/interactions/four_particle/cpp/Ds.cpp
index 951e09d..190da36 100644
--- a/interactions/four_particle/cpp/Ds.cpp
+++ b/interactions/four_particle/cpp/Ds.cpp
@@ -230,18 +230,9 @@ dbl Db1(dbl q2, dbl q3, dbl q4) {
 
 
 dbl Db2(dbl q2, dbl q3, dbl q4) {
-
-    dbl result;
-    if (q3 < q4) { std::swap(q3, q4); }
-
-    result = 0.25 * (-2 * q4 * (2 * (q2 + q3) - std::abs(q2 - q3 + q4) - std::abs(-q2 + q3 + q4))
-                  -2 * q3 * (2 * q4 + std::abs(q2 - q3 + q4) - std::abs(-q2 + q3 + q4))
-                  + pow(-q2 + q3 + q4, 2) * Sgn(q2 - q3 - q4) - pow(q2 + q3 - q4, 2) * Sgn(q2 + q3 - q4)
-                  - pow(q2 - q3 + q4, 2) * Sgn(q2 - q3 + q4) + pow(q2 + q3 + q4, 2) * 1
-                  + 2 * q3 * q4 * (Sgn(q2 - q3 - q4) + Sgn(q2 + q3 - q4) + Sgn(q2 - q3 + q4) + 1)
-          );
-
-    return result;
+    // Shares the support of Db1: otherwise rounding errors at its boundary (where e.g. all massless
+    // configurations are) spoil the cancellation between the two
+    return 0.5 * Db1(q2, q3, q4) * (q3 * q3 + q4 * q4 - q2 * q2);
 }
 
 
-- 
2.43.0


From 46865ae431682be6a141245fa00ce17503986159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:08 +0000
Subject: [PATCH 25/44] fix: heat exchanged with decoupled species was divided
 by the scale factor twice with linear time steps

---
 particles/NonEqParticle.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/particles/NonEqParticle.py b/particles/NonEqParticle.py
index 792f093..030cc99 100755
--- a/particles/NonEqParticle.py
+++ b/particles/NonEqParticle.py
@@ -14,6 +14,16 @@ from common.integrators import lambda_integrate
 name = 'non-equilibrium'
 aT = 0
 adec = 0
+
+
+def distribution_derivative(particle):
+    """ Collision integrals are derivatives of the distribution function with respect to the \
+        integration variable: $\ln a$ or $x$. The master equation is formulated in terms of $x$ """
+    if environment.get('LOGARITHMIC_TIMESTEP'):
+        return particle.collision_integral / particle.params.x
+    return particle.collision_integral
+
+
 if not environment.get('SIMPSONS_NONEQ_PARTICLES'):
 
     def density(particle):
@@ -111,8 +121,7 @@ if not environment.get('SIMPSONS_NONEQ_PARTICLES'):
 
 
     def numerator(particle):
-        integral = linear_interpolation(particle.collision_integral / particle.params.x,
-                                        particle.grid.TEMPLATE)
+        integral = linear_interpolation(distribution_derivative(particle), particle.grid.TEMPLATE)
         return lambda_integrate(particle.grid.BOUNDS)(lambda particle: numpy.vectorize(lambda y: (
             -1. * particle.dof / 2. / numpy.pi**2
             * y**2 * particle.conformal_energy(y)
@@ -201,7 +210,7 @@ else:
         return simps((
             -1. * particle.dof / 2. / numpy.pi**2
             * temp**2 * particle.conformal_energy(temp)
-            * particle.collision_integral / particle.params.x), temp
+            * distribution_derivative(particle)), temp
         )
 
 
-- 
2.43.0


From d8a19848646936273af94615476090c2b8fa229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:10 +0000
Subject: [PATCH 26/44] fix: energy of heavy neutrinos leaked from one universe
 to the others of the process

---
 common/kinematics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 4655dd8..8a5d264 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -92,8 +92,8 @@ def four_particle_grid_cutoff_scattering(particle):
 
     if particle.name == 'Sterile neutrino (Dirac)':
         max_mom = particle.grid.MAX_MOMENTUM #3 * particle.params.T
-    elif particle.name != 'Sterile neutrino (Dirac)' and environment.get('HNL_ENERGY'):
-        HNL_energy = float(environment.get('HNL_ENERGY'))
+    elif particle.name != 'Sterile neutrino (Dirac)' and getattr(particle.params, 'HNL_energy', None):
+        HNL_energy = particle.params.HNL_energy
         max_mom = max(np.sqrt(HNL_energy**2 - particle.conformal_mass**2), environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)
     else:
         max_mom = environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV
@@ -111,8 +111,8 @@ def four_particle_grid_cutoff_decay(particle):
 
     if particle.name == 'Sterile neutrino (Dirac)':
         max_mom = particle.grid.MAX_MOMENTUM
-    elif particle.name != 'Sterile neutrino (Dirac)' and environment.get('HNL_ENERGY'):
-        HNL_energy = float(environment.get('HNL_ENERGY'))
+    elif particle.name != 'Sterile neutrino (Dirac)' and getattr(particle.params, 'HNL_energy', None):
+        HNL_energy = particle.params.HNL_energy
         max_mom = max(np.sqrt(HNL_energy**2 - particle.conformal_mass**2), environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)
     else:
         max_mom = particle.grid.MAX_MOMENTUM
@@ -346,7 +346,7 @@ def CollisionMultiplier3p(interaction):
 
 def store_energy(interaction):
     if interaction.particle.name == 'Sterile neutrino (Dirac)':
-        os.environ['HNL_ENERGY'] = str(np.sqrt((interaction.particle.grid.MAX_MOMENTUM/10)**2 + interaction.particle.conformal_mass**2))
+        interaction.particle.params.HNL_energy = np.sqrt((interaction.particle.grid.MAX_MOMENTUM/10)**2 + interaction.particle.conformal_mass**2)
 
 def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
-- 
2.43.0


From 02e68cc7c0a762931f087e8d5216894ce0f3351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:10 +0000
Subject: [PATCH 27/44] fix: relativistic decoupling of an earlier heavy
 neutrino applied to later ones

---
 common/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 8a5d264..0df46af 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -173,7 +173,8 @@ def decoupling_temperature(mass, mixing_angle):
     if 1.5 * T_dec_rel > 1.5 * mass:
         os.environ['Relativistic_decoupling'] = 'True'
         return 1.5 * T_dec_rel
-    elif mass <= 1.5 * T_dec_rel <= 1.5 * mass:
+    os.environ.pop('Relativistic_decoupling', None)
+    if mass <= 1.5 * T_dec_rel <= 1.5 * mass:
         return 1.5 * mass
     return mass
 
-- 
2.43.0


From 8432aba31e5a23728ed33d6fc3156a1a45ddf6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:30 +0000
Subject: [PATCH 28/44] fix: constant matrix elements were integrated without
 the phase space of the four momenta

---
 interactions/four_particle/__init__.py      | 4 +++-
 interactions/four_particle/cpp/integral.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 31734da..290c721 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -160,7 +160,9 @@ class FourParticleIntegral(BoltzmannIntegral):
         stepsize *= constant
 
         if not self.cMs:
-            self.cMs = [M_t(list(M.order), M.K1 / unit, M.K2 / unit, M.K / unit) for M in self.Ms]
+            # Unlike the other terms, a constant matrix element does not carry four powers of momentum
+            self.cMs = [M_t(list(M.order), M.K1 / unit, M.K2 / unit, M.K / unit * (params.a / params.aT)**4)
+                        for M in self.Ms]
 
         kinematics.store_energy(self)
 
diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 1ecc817..fde8350 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -304,7 +304,11 @@ dbl integrand_full(
     dbl ds = 0.;
 
     if (Ms[0].K != 0.) {
-        ds += Ms[0].K;
+        if (p[0] != 0.) {
+            ds += Ms[0].K * D1(p[0], p[1], p[2], p[3]) / (p[0] * E[0]);
+        } else if (E[0] != 0.) {
+            ds += Ms[0].K * Db1(p[1], p[2], p[3]) / E[0];
+        }
     }
 
     else {
-- 
2.43.0


From 034c162f8eefc04084978f340bd314dd35065e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 29/44] fix: decays of charged mesons and of K0L did not
 produce charged pions and muons

---
 library/SM.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index 63a7214..fc16462 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -634,29 +634,43 @@ class interactions(object):
             kind=kind
         )]
 
+    @staticmethod
+    def conjugated(parts, antiparts):
+        """ Charge conjugation of the participants of a reaction """
+        return [not anti and not part.majorana for part, anti in zip(parts, antiparts)]
+
+    @staticmethod
+    def complement(decay, conjugate):
+        """ Collision integrals are only generated for the particles of a process. The conjugate\
+            process provides those of the species it only involves as antiparticles """
+        species = [integral.particle for integral in decay.integrals]
+        conjugate.integrals = [integral for integral in conjugate.integrals
+                               if integral.particle not in species]
+        return [decay, conjugate] if conjugate.integrals else [decay]
+
     @staticmethod
     def four_particle_meson_decay(parts=None, antiparts=None, ME=None, kind=None):
 
-        return [CrossGeneratingInteraction(
+        return interactions.complement(*[CrossGeneratingInteraction(
             name="Meson decay",
             particles=((parts[0], parts[1]), (parts[2], parts[3])),
-            antiparticles=((antiparts[0], antiparts[1]), (antiparts[2], antiparts[3])),
+            antiparticles=((anti[0], anti[1]), (anti[2], anti[3])),
             Ms=(WeakM(K=ME),),
             integral_type=FourParticleIntegral,
             kind=kind
-        )]
+        ) for anti in [antiparts, interactions.conjugated(parts, antiparts)]])
 
     @staticmethod
     def three_particle_meson_decay(parts=None, antiparts=None, ME=None, kind=None):
 
-        return [CrossGeneratingInteraction(
+        return interactions.complement(*[CrossGeneratingInteraction(
             name="Meson decay",
             particles=((parts[0], ), (parts[1], parts[2])),
-            antiparticles=((antiparts[0], ), (antiparts[1], antiparts[2])),
+            antiparticles=((anti[0], ), (anti[1], anti[2])),
             Ms=(ThreeParticleM(K=ME),),
             integral_type=ThreeParticleIntegral,
             kind=kind
-        )]
+        ) for anti in [antiparts, interactions.conjugated(parts, antiparts)]])
 
     @classmethod
     def meson_interactions(cls, primary_mesons=None, mesons=None, leptons=None, neutrinos=None,
-- 
2.43.0


From 3ae8a4db0299576d0d596d0f742cf0a95c8151c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 30/44] fix: number of products of fast decays ignored how many
 of them a decay yields

---
 common/kinematics.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 0df46af..e67e3bc 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -370,7 +370,13 @@ def scaling(interaction, fullstack, constant):
         created = simps(fullstack * constant * dof * grid.TEMPLATE**2, grid.TEMPLATE)
         if created == 0.:
             return False
-        scaling = BR * interaction.reaction[-1].specie.num_creation / created
+        # Number of particles of this specie per decay: both `created` and `num_creation` leave out antiparticles
+        multiplicity = sum(item.specie == interaction.particle for item in interaction.reaction[:-1])
+        if not interaction.reaction[-1].specie.majorana:
+            multiplicity *= 2.
+        if not interaction.particle.majorana:
+            multiplicity /= 2.
+        scaling = multiplicity * BR * interaction.reaction[-1].specie.num_creation / created
         fullstack *= scaling
     return fullstack
 
-- 
2.43.0


From 30cd6a90e645f2c4f5f227e1361188d0003b00cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:16 +0000
Subject: [PATCH 31/44] fix: thermalisation of unstable particles lost
 particles by a factor 4 pi

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index e67e3bc..1e05bd5 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -407,7 +407,7 @@ def Icoll_fast_decay(particle, ps):
 
     if hasattr(particle, 'thermalization'):
         distr_ini = distr_backg + sum(F1s) * particle.params.h
-        distr_bef = distr_backg + simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
+        distr_bef = distr_backg + 4 * np.pi * simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
                     / (2 * np.pi * particle.conformal_mass * particle.aT)**(3/2) \
                     * np.exp(-particle.grid.TEMPLATE**2 / (2 * particle.conformal_mass * particle.aT))
 
-- 
2.43.0


From 7a53682c29c03996c87b8116e273f8e0f613f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:00 +0000
Subject: [PATCH 32/44] fix: decays were left out in the step in which unstable
 particles are created first

---
 common/kinematics.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 1e05bd5..fea518d 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -396,7 +396,10 @@ def Icoll_fast_decay(particle, ps):
     Ffs = []
     Ffs_temp = []
     dofs = []
-    for integral in particle.collision_integrals:
+    # Decays are neglected if nothing has been created, so creation during this step has to be known first
+    integrals = [integral for integral in particle.collision_integrals if not utils.reaction_type(integral).DECAY]
+    decays = [integral for integral in particle.collision_integrals if utils.reaction_type(integral).DECAY]
+    for integral in integrals:
         F1, Ff = integral.integrate(ps, stepsize=particle.params.h)
         F1s.append(F1)
         Ffs_temp.append(Ff)
@@ -416,8 +419,12 @@ def Icoll_fast_decay(particle, ps):
 
     particle.num_creation = simps(sum(F1s*np.array(dofs)[:,None]) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE)
 
+    for integral in decays:
+        integrals.append(integral)
+        Ffs_temp.append(integral.integrate(ps, stepsize=particle.params.h)[1])
+
     for index, Ff in enumerate(Ffs_temp):
-        integral = particle.collision_integrals[index]
+        integral = integrals[index]
         if utils.reaction_type(integral).DECAY: # line not necessary
             sym = ''.join([item.specie.symbol for item in integral.reaction[1:]])
             for key in integral.reaction[0].specie.BR:
-- 
2.43.0


From 3c510838c6400b5807e1986f44b21b92c3fa2ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:46 +0000
Subject: [PATCH 33/44] fix: reactions of the sterile neutrino gave its
 partners the wrong number and energy

One of the two CP-conjugated lists of reactions was dropped for the species both have in
common, and made up for by a multiplicity that doubles electrons and misses scatterings
---
 common/kinematics.py |  7 ++++---
 library/NuMSM.py     | 27 ++++++++++++++-------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index fea518d..9c77448 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -324,9 +324,10 @@ def Neglect4pInteraction(interaction, ps):
     return False
 
 def CollisionMultiplier4p(interaction):
-    if 'Sterile neutrino (Dirac)' in [item.specie.name for item in interaction.reaction] or \
-    (utils.reaction_type(interaction).CREATION and not \
-    (interaction.reaction[3].specie.majorana and interaction.particle.Q)):
+    # Reactions of the sterile neutrino and of its antiparticle are listed separately
+    if 'Sterile neutrino (Dirac)' not in [item.specie.name for item in interaction.reaction] and \
+    utils.reaction_type(interaction).CREATION and not \
+    (interaction.reaction[3].specie.majorana and interaction.particle.Q):
         left = Counter(item.specie for item in interaction.reaction if item.side == -1)
         right = Counter(item.specie for item in interaction.reaction if item.side == 1)
         if left[interaction.reaction[0].specie] == 2 and right[interaction.reaction[0].specie] in [0, 1]:
diff --git a/library/NuMSM.py b/library/NuMSM.py
index 9fde38b..b625d94 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -159,10 +159,6 @@ class interactions(object):
                     active_b=neutrino_b,
                     kind=kind
                 )
-                inter[1].integrals = [integral for integral in inter[1].integrals if \
-                                    integral.reaction[0].specie.name not in [integral2.reaction[0].specie.name for \
-                                    integral2 in inter[0].integrals]]
-
                 inters.extend(inter)
 
         # Interactions of neutrinos and leptons
@@ -183,7 +179,6 @@ class interactions(object):
                         for interac in inter:
                             interac.integrals = [integral for integral in interac.integrals if not (integral.reaction[0].specie.name != sterile.name and\
                                                 Counter([item.specie.name for item in integral.reaction if item.side == -1])[lepton.name] == 1)]
-                        inter[1].integrals = [integral for integral in inter[1].integrals if integral.reaction[0].specie.name != lepton.name]
                     inters.extend(inter)
 
                 if len(leptons) > 1:
@@ -222,7 +217,7 @@ class interactions(object):
         for quark in quarks:
             for active in neutrinos:
                 if thetas[active.flavour]:
-                    inters.append(interactions.sterile_quark_neutral(
+                    inters.extend(interactions.sterile_quark_neutral(
                         theta=thetas[active.flavour], sterile=sterile,
                         active=active, quark=quark, kind=kind
                     ))
@@ -231,7 +226,7 @@ class interactions(object):
                                           [q for q in quarks if q.Q == -1./3.]):
             for lepton in leptons:
                 if thetas[lepton.flavour]:
-                    inters.append(interactions.sterile_quark_charged(
+                    inters.extend(interactions.sterile_quark_charged(
                         theta=thetas[lepton.flavour], sterile=sterile,
                         lepton=lepton, up=up, down=down, kind=kind
                     ))
@@ -253,10 +248,10 @@ class interactions(object):
 
         x = (3 - 4 * g_R)
 
-        return CrossGeneratingInteraction(
+        return [CrossGeneratingInteraction(
             name="Sterile-quarks neutral channel interaction",
             particles=((sterile, active), (quark, quark)),
-            antiparticles=((False, True), (False, True)),
+            antiparticles=antiparticles,
             Ms=(
                 SterileM(theta=theta, K1=16. / 9. * g_R**2, order=(0, 2, 1, 3)),
                 SterileM(theta=theta, K1=1. / 9. * x**2, order=(0, 3, 1, 2)),
@@ -264,7 +259,10 @@ class interactions(object):
             ),
             integral_type=FourParticleIntegral,
             kind=kind
-        )
+        ) for antiparticles in
+            [((False, True), (False, True)),
+            ((True, False), (True, False))
+        ]]
 
     @staticmethod
     def sterile_quark_charged(theta=1., sterile=None, lepton=None, up=None, down=None, kind=None):
@@ -275,16 +273,19 @@ class interactions(object):
 
         CKM = SM_particles.quarks.CKM[(up.family, down.family)]
 
-        return CrossGeneratingInteraction(
+        return [CrossGeneratingInteraction(
             name="Sterile-quarks charged channel interaction",
             particles=((sterile, lepton), (up, down)),
-            antiparticles=((False, True), (False, True)),
+            antiparticles=antiparticles,
             Ms=(
                 SterileM(theta=theta, K1=4. * CKM**2, order=(0, 3, 1, 2)),
             ),
             integral_type=FourParticleIntegral,
             kind=kind
-        )
+        ) for antiparticles in
+            [((False, True), (False, True)),
+            ((True, False), (True, False))
+        ]]
 
     @classmethod
     def sterile_hadrons_interactions(cls, thetas=None, sterile=None, neutrinos=None,
-- 
2.43.0


From 34f06d30a84d7800a31c19aeb029930038cfff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 34/44] fix: keep constant matrix elements when merging
 collision terms

Terms of the same process are merged by adding their matrix elements, but the
addition (and scaling) of four-particle matrix elements left out the constant
one, so that all but one of the terms with a constant amplitude were lost
---
 interactions/four_particle/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 290c721..84bdd5e 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -42,16 +42,19 @@ class FourParticleM(object):
     def __iadd__(self, M):
         self.K1 += M.K1
         self.K2 += M.K2
+        self.K += M.K
         return self
 
     def __idiv__(self, div):
         self.K1 /= div
         self.K2 /= div
+        self.K /= div
         return self
 
     def __imul__(self, mul):
         self.K1 *= mul
         self.K2 *= mul
+        self.K *= mul
         return self
 
     def __setattr__(self, name, value):
-- 
2.43.0


From e29bba86e5244b001076d506df2209569d338fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:04 +0000
Subject: [PATCH 35/44] fix: decays of a meson were listed again for every
 meson whose products contain it

The listed processes depended on the order in which the species were given, and taus among
the primary products doubled the leptonic decays
---
 library/SM.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index fc16462..a734669 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -764,7 +764,7 @@ class interactions(object):
                                             kind=kind)
 
         def charged_pion_decay(inters=None):
-            if not (muon_tau[0] or already_there(inters, 'Muon')):
+            if not (any(muon_tau) or already_there(inters, 'Muon')):
                 inters += cls.lepton_interactions(leptons=leptons,
                                                 neutrinos=neutrinos,
                                                 kind=kind)
@@ -965,6 +965,10 @@ class interactions(object):
                                                     kind=kind)
 
         for meson in primary_mesons:
+            # Decays of the products of other mesons have been included along with them
+            if already_there(inters, meson.name):
+                continue
+
             if meson.name == 'Neutral pion':
                 neutral_pion_decay(inters)
 
-- 
2.43.0


From cb98842b3a0a85594aea23440bf5605ce17620d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:04 +0000
Subject: [PATCH 36/44] fix: weak interactions of quarks lacked the factor of
 the number of colors

---
 library/NuMSM.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index b625d94..afed1f1 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -69,6 +69,10 @@ class particles(object):
         }
 
 
+# Number of quark colors
+N_c = 3
+
+
 class interactions(object):
 
     @staticmethod
@@ -253,9 +257,9 @@ class interactions(object):
             particles=((sterile, active), (quark, quark)),
             antiparticles=antiparticles,
             Ms=(
-                SterileM(theta=theta, K1=16. / 9. * g_R**2, order=(0, 2, 1, 3)),
-                SterileM(theta=theta, K1=1. / 9. * x**2, order=(0, 3, 1, 2)),
-                SterileM(theta=theta, K2=-4. / 9. * g_R * x, order=(2, 3, 0, 1)),
+                SterileM(theta=theta, K1=N_c * 16. / 9. * g_R**2, order=(0, 2, 1, 3)),
+                SterileM(theta=theta, K1=N_c / 9. * x**2, order=(0, 3, 1, 2)),
+                SterileM(theta=theta, K2=N_c * -4. / 9. * g_R * x, order=(2, 3, 0, 1)),
             ),
             integral_type=FourParticleIntegral,
             kind=kind
@@ -278,7 +282,7 @@ class interactions(object):
             particles=((sterile, lepton), (up, down)),
             antiparticles=antiparticles,
             Ms=(
-                SterileM(theta=theta, K1=4. * CKM**2, order=(0, 3, 1, 2)),
+                SterileM(theta=theta, K1=N_c * 4. * CKM**2, order=(0, 3, 1, 2)),
             ),
             integral_type=FourParticleIntegral,
             kind=kind
-- 
2.43.0


From 00f152149b783a2addf6e63d9ba1204d79a1131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:04 +0000
Subject: [PATCH 37/44] fix: decays of the sterile neutrino into kaons used the
 quark mixing of pions

---
 library/NuMSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index afed1f1..8ab2ec4 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -370,7 +370,8 @@ class interactions(object):
             \end{align}
         """
 
-        CKM = SM_particles.quarks.CKM[(1, 1)]
+        # Kaons contain a strange quark
+        CKM = SM_particles.quarks.CKM[(1, 2) if meson.name == 'Charged kaon' else (1, 1)]
 
         return [CrossGeneratingInteraction(
             name="Sterile neutrino decay to charged scalar meson and lepton",
-- 
2.43.0


From 5b03ce23fad7d8989262f916eb414601dbd98211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 38/44] fix: species could not be given another grid after they
 were made

Their records kept the shape of the first grid, so that nothing could be stored in them
---
 particles/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 38be8ca..b9bce06 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -68,13 +68,10 @@ class AbstractParticle:
 
         self.eta = 1. if self.statistics == STATISTICS.FERMION else -1.
         self.equilibrium_distribution_function = self.statistics
-        self.set_grid(self.grid)
         self.decayed= False
 
         self.collision_integrals = []
         self.data = {
-            'distribution': Dynamic2DArray(self.grid.TEMPLATE),
-            'collision_integral': Dynamic2DArray(self.grid.TEMPLATE),
             'params': DynamicRecArray([
                 ['a', '', 1],
                 ['t', 's', UNITS.s],
@@ -83,6 +80,7 @@ class AbstractParticle:
                 ['energy_density', 'MeV^4', UNITS.MeV**4]
             ])
         }
+        self.set_grid(self.grid)
 
         if self.params:
             self.set_params(self.params)
@@ -211,6 +209,8 @@ class DistributionParticle(AbstractParticle):
         self._distribution = numpy.zeros(self.grid.MOMENTUM_SAMPLES, dtype=numpy.float_)
         """ Particle collision integral is not effective in the equilibrium as well """
         self.collision_integral = numpy.zeros(self.grid.MOMENTUM_SAMPLES, dtype=numpy.float_)
+        self.data['distribution'] = Dynamic2DArray(self.grid.TEMPLATE)
+        self.data['collision_integral'] = Dynamic2DArray(self.grid.TEMPLATE)
 
     def update(self, force_print=False):
         """ Update the particle parameters according to the new state of the system """
-- 
2.43.0


From 4759399a80d45410521f41cf3c2d7d60a5e1ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 39/44] fix: baryonic rates were taken from the species of the
 universe prepared last

---
 evolution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evolution.py b/evolution.py
index 25c26cd..641bef8 100755
--- a/evolution.py
+++ b/evolution.py
@@ -27,6 +27,7 @@ class Universe(object):
     interactions = None
 
     kawano = None
+    kawano_species = None
     kawano_log = None
 
     oscillations = None
@@ -74,6 +75,7 @@ class Universe(object):
 
     def init_kawano(self, datafile='s4.dat', **kwargs):
         kawano.init_kawano(**kwargs)
+        self.kawano_species = kwargs
         if self.folder:
             self.kawano_log = open(os.path.join(self.folder, datafile), 'w')
             self.kawano_log.write("\t".join([col[0] for col in kawano.heading]) + "\n")
@@ -326,6 +328,9 @@ class Universe(object):
             #     t[s]         x    Tg[10^9K]   dTg/dt[10^9K/s] rho_tot[g cm^-3]     H[s^-1]
             # n nue->p e  p e->n nue  n->p e nue  p e nue->n  n e->p nue  p nue->n e
 
+            # Another universe of the process may have handed over its species in the meantime
+            if self.kawano_species:
+                self.kawano.init_kawano(**self.kawano_species)
             rates = self.kawano.baryonic_rates(self.params.a)
 
             if environment.get('LOGARITHMIC_TIMESTEP'):
-- 
2.43.0


From eca26c97e766d4f550e2601136e55d2d40690d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 40/44] fix: a run recording baryonic rates could not be
 carried on after its export

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 641bef8..cefe92f 100755
--- a/evolution.py
+++ b/evolution.py
@@ -171,7 +171,8 @@ class Universe(object):
         if self.folder:
             if self.kawano:
 
-                self.kawano_log.close()
+                # The run may be carried on afterwards
+                self.kawano_log.flush()
                 print(kawano.run(self.folder))
 
                 with open(os.path.join(self.folder, "kawano.txt"), "wb") as f:
-- 
2.43.0


From a164a79e32255012f6b56038bccd2f23503297b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 41/44] fix: accuracy of the adaptive quadrature depended on
 the absolute scale of the integrand

---
 common/integrators/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/integrators/__init__.py b/common/integrators/__init__.py
index 146ebc3..e8da894 100644
--- a/common/integrators/__init__.py
+++ b/common/integrators/__init__.py
@@ -116,7 +116,9 @@ def integrate_1D(integrand, bounds):
     if not environment.get('FIXED_ORDER_1D_QUADRATURE'):
         integral, error = integrate.quad(
             integrand,
-            bounds[0], bounds[1]
+            bounds[0], bounds[1],
+            # Integrands are dimensionful, their absolute scale is arbitrary
+            epsabs=0.
         )
     else:
         integral = gaussian(
-- 
2.43.0


From f652645f6fb596dc93ceb707796deaeaf37358e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 42/44] fix: truncating an empty table lost the next row

---
 common/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/utils.py b/common/utils.py
index 9f5d17c..c7938e0 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -207,6 +207,8 @@ class Dynamic2DArray(object):
         return self._data[:self.length]
 
     def truncate(self):
+        if not self.length:
+            raise IndexError("There are no rows to truncate")
         self._data = numpy.delete(self._data, self.length + 1, axis=0)
         self.length -= 1
 
@@ -283,6 +285,8 @@ class DynamicRecArray(object):
         return '\t'.join(heading)
 
     def truncate(self):
+        if not self.length:
+            raise IndexError("There are no rows to truncate")
         self._data = numpy.delete(self._data, self.length + 1, axis=0)
         self.length -= 1
 
-- 
2.43.0


From 3b39fe101938846d7991108b3613e8cb87f1bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 43/44] fix: loss terms given separately damped the step by
 their product with the distribution

---
 particles/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index b9bce06..f6518e6 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -307,9 +307,12 @@ class DistributionParticle(AbstractParticle):
                     C,B = integral.integrate(ps, stepsize=self.params.h)
                     ABs.append(C)
                     Bs.append(B)
-                elif integral.kind in [CollisionIntegralKind.F_f_vacuum_decay, CollisionIntegralKind.F_decay]:
+                elif integral.kind in [CollisionIntegralKind.F_f, CollisionIntegralKind.F_f_vacuum_decay,
+                                       CollisionIntegralKind.F_decay]:
                     G = integral.integrate(ps, stepsize=self.params.h)
-                    Bs.append(G)
+                    # Such terms are the product of the relaxation rate and the distribution function
+                    f = self._distribution
+                    Bs.append(numpy.divide(G, f, out=numpy.zeros(len(ps)), where=f > 0.))
                     ABs.append(G)
                 else:
                     ABs.append(integral.integrate(ps, stepsize=self.params.h))
-- 
2.43.0


From 7a1a6e8e60b7d0366a2c8ec4c47a2c66feb58e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:09 +0000
Subject: [PATCH 44/44] fix: the relaxation rate of separate loss terms was
 lost where the distribution vanishes

---
 common/kinematics.py                    |  3 ++-
 interactions/four_particle/__init__.py  |  3 ++-
 interactions/three_particle/__init__.py |  3 ++-
 particles/__init__.py                   | 11 +++--------
 4 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 9c77448..564afce 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -16,7 +16,8 @@ def cm_momentum(mass_1, mass_2, mass_3):
             ) / (2 * mass_1)
 
 def return_function(interaction, ps):
-    if interaction.kind in [CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay] or hasattr(interaction.particle, 'fast_decay'):
+    if interaction.kind in [CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay, CollisionIntegralKind.F_f,
+                            CollisionIntegralKind.F_decay, CollisionIntegralKind.F_f_vacuum_decay] or hasattr(interaction.particle, 'fast_decay'):
         return np.zeros(len(ps)), np.zeros(len(ps))
     return np.zeros(len(ps))
 
diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 84bdd5e..a880f84 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -205,6 +205,7 @@ class FourParticleIntegral(BoltzmannIntegral):
                 return fullstack * constant, numpy.zeros(len(fullstack))
 
         if self.kind in [CollisionIntegralKind.F_f, CollisionIntegralKind.F_decay, CollisionIntegralKind.F_f_vacuum_decay]:
-            constant *= self.particle._distribution
+            # The term itself and the relaxation rate
+            return fullstack * constant * self.particle._distribution, fullstack * constant
 
         return fullstack * constant
diff --git a/interactions/three_particle/__init__.py b/interactions/three_particle/__init__.py
index 1a01ada..8250199 100755
--- a/interactions/three_particle/__init__.py
+++ b/interactions/three_particle/__init__.py
@@ -135,6 +135,7 @@ class ThreeParticleIntegral(BoltzmannIntegral):
                 return fullstack * constant, numpy.zeros(len(fullstack))
 
         if self.kind in [CollisionIntegralKind.F_f, CollisionIntegralKind.F_decay, CollisionIntegralKind.F_f_vacuum_decay]:
-            constant *= self.particle._distribution
+            # The term itself and the relaxation rate
+            return fullstack * constant * self.particle._distribution, fullstack * constant
 
         return fullstack * constant
diff --git a/particles/__init__.py b/particles/__init__.py
index f6518e6..eb6ae32 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -303,17 +303,12 @@ class DistributionParticle(AbstractParticle):
             Bs = []
 
             for integral in self.collision_integrals:
-                if integral.kind in [CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay]:
+                if integral.kind in [CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay,
+                                     CollisionIntegralKind.F_f, CollisionIntegralKind.F_f_vacuum_decay,
+                                     CollisionIntegralKind.F_decay]:
                     C,B = integral.integrate(ps, stepsize=self.params.h)
                     ABs.append(C)
                     Bs.append(B)
-                elif integral.kind in [CollisionIntegralKind.F_f, CollisionIntegralKind.F_f_vacuum_decay,
-                                       CollisionIntegralKind.F_decay]:
-                    G = integral.integrate(ps, stepsize=self.params.h)
-                    # Such terms are the product of the relaxation rate and the distribution function
-                    f = self._distribution
-                    Bs.append(numpy.divide(G, f, out=numpy.zeros(len(ps)), where=f > 0.))
-                    ABs.append(G)
                 else:
                     ABs.append(integral.integrate(ps, stepsize=self.params.h))
 
-- 
2.43.0

