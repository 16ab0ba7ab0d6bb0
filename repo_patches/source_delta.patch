From 6e8b7867052a3ed556abce2e46ad49f1683f7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:52 +0000
Subject: [PATCH 001/154] fix: normalize each DC 1D apparent resistivity by its
 own geometric factor

A receiver with more than one location failed to broadcast (or, when the number
of locations equalled the number of spline points, scaled the wrong axis).
---
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index 85d72bd..7f3192f 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -279,7 +279,7 @@ class Simulation1DLayers(BaseSimulation):
                         if n_off is not None:
                             A[:, i] -= current * splines[i](np.log(n_off)) / n_off
                 if rx.data_type == "apparent_resistivity":
-                    A /= rx.geometric_factor[src]
+                    A /= rx.geometric_factor[src][:, None]
                 As.append(A @ A_dht / (2 * np.pi))
         self._coefficients_set = True
         self._As = np.vstack(As)
-- 
2.43.0


From 9d04118a3947065a685fe3c71cc7d044c1269807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:52 +0000
Subject: [PATCH 002/154] fix: stored self potential sensitivity of receivers
 with a single location

---
 simpeg/electromagnetics/static/resistivity/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index c84939a..203419d 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -252,7 +252,7 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
                 else:
                     iend = istrt + rx.nD
                     if rx.nD == 1:
-                        Jtv[:, istrt] = df_dmT + du_dmT
+                        Jtv[:, istrt] = mkvc(df_dmT + du_dmT)
                     else:
                         Jtv[:, istrt:iend] = df_dmT + du_dmT
                     istrt += rx.nD
-- 
2.43.0


From 5db8296971941401f121c3521e8db566cd60cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:27 +0000
Subject: [PATCH 003/154] fix: model derivative of the current density in 3D
 cell centered DC fields

The term was formed from the model perturbation instead of the potential, so that
sensitivities of current density receivers failed.
---
 simpeg/electromagnetics/static/resistivity/fields.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/fields.py b/simpeg/electromagnetics/static/resistivity/fields.py
index 0ef0813..a577f14 100644
--- a/simpeg/electromagnetics/static/resistivity/fields.py
+++ b/simpeg/electromagnetics/static/resistivity/fields.py
@@ -2,7 +2,7 @@ import numpy as np
 from scipy.constants import epsilon_0
 
 from ....fields import Fields
-from ....utils import Identity, Zero
+from ....utils import Identity, Zero, mkvc
 
 
 class FieldsDC(Fields):
@@ -141,9 +141,8 @@ class Fields3DCellCentered(FieldsDC):
         return self._MfRhoI * (self._Grad * v)
 
     def _jDeriv_m(self, src, v, adjoint=False):
-        if adjoint:
-            return self._Grad.T * self._MfRhoIDeriv(v, adjoint=True)
-        return self._MfRhoIDeriv(self._Grad * v)
+        phi = mkvc(self[src, "phiSolution"])
+        return self._MfRhoIDeriv(self._Grad * phi, v, adjoint)
 
     def _e(self, phiSolution, source_list):
         r"""
-- 
2.43.0


From db4b363cb23100f8faf82bf69fe138dfb5b29283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:27 +0000
Subject: [PATCH 004/154] fix: index spectral IP data in the order in which
 they are predicted

With several sources or receivers and several times, the transpose sensitivity
product paired data with the wrong source, receiver and time.
---
 .../static/spectral_induced_polarization/data.py      | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/data.py b/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
index f84e018..30399ae 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
@@ -41,11 +41,14 @@ class Data(BaseData):
                 for rx in src.receiver_list:
                     self._index_dictionary[src][rx] = {}
 
-            # loop over sources and find the associated data indices
+            # find the associated data indices, in the order in which the
+            # simulations predict the data: times, then sources and receivers
             indBot, indTop = 0, 0
-            for src in self.survey.source_list:
-                for rx in src.receiver_list:
-                    for t in rx.times:
+            for t in self.survey.unique_times:
+                for src in self.survey.source_list:
+                    for rx in src.receiver_list:
+                        if t not in rx.times:
+                            continue
                         indTop += rx.nD
                         self._index_dictionary[src][rx][t] = np.arange(indBot, indTop)
                         indBot += rx.nD
-- 
2.43.0


From 521450c337414938f3e6c9d905e3b13190f1909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:48 +0000
Subject: [PATCH 005/154] fix: form the stored 3D spectral IP sensitivity with
 the receivers' grid location

---
 .../static/spectral_induced_polarization/simulation.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index b0b3344..e6b74d4 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -382,7 +382,10 @@ class BaseSIPSimulation(BaseIPSimulation):
                     sys.stdout.flush()
                 u_src = f[src, self._solutionType]
                 for rx in src.receiver_list:
-                    P = rx.getP(self.mesh, rx.projGLoc(f)).toarray()
+                    projected_grid = f._GLoc(rx.projField)
+                    if rx.orientation is not None:
+                        projected_grid += rx.orientation
+                    P = rx.getP(self.mesh, projected_grid).toarray()
                     ATinvdf_duT = self.Ainv * (P.T)
                     dA_dmT = self.getADeriv(u_src, ATinvdf_duT, adjoint=True)
                     iend = istrt + rx.nD
-- 
2.43.0


From 58223d5abbbf8e3fb325d103e82f79f349a7e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:19 +0000
Subject: [PATCH 006/154] fix: TDEM Jvec misses the derivative of the fields at
 the last time

---
 simpeg/electromagnetics/time_domain/simulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index efd986e..aa848ea 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -263,8 +263,15 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 JRHS = dRHS_dm_v - dAsubdiag_dm_v - dA_dm_v
 
                 # step in time and overwrite
-                if tInd != len(self.time_steps + 1):
-                    dun_dm_v[:, i] = Adiaginv * (JRHS - Asubdiag * dun_dm_v[:, i])
+                dun_dm_v[:, i] = Adiaginv * (JRHS - Asubdiag * dun_dm_v[:, i])
+
+        # fields at the end of the last time step
+        for i, src in enumerate(self.survey.source_list):
+            for projField in set([rx.projField for rx in src.receiver_list]):
+                df_dmFun = getattr(f, "_%sDeriv" % projField, None)
+                df_dm_v[src, "{}Deriv".format(projField), self.nT] = df_dmFun(
+                    self.nT, src, dun_dm_v[:, i], v
+                )
 
         Jv = []
         for src in self.survey.source_list:
-- 
2.43.0


From 12007d7220c4e5cf2c4cfb76f59cfe7a3441a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:19 +0000
Subject: [PATCH 007/154] fix: TDEM Jtvec misses the derivative of the initial
 fields for the H and J formulations

---
 simpeg/electromagnetics/time_domain/simulation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index aa848ea..3307e22 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -441,6 +441,13 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 JTv = JTv + mkvc(-dAT_dm_v - dAsubdiagT_dm_v + dRHST_dm_v)
 
         # Treat the initial condition
+        Asubdiag = self.getAsubdiag(0)
+        for isrc, src in enumerate(self.survey.source_list):
+            initial_deriv = getattr(src, "{}InitialDeriv".format(self._fieldType))
+            du0T_v = mkvc(
+                df_duT_v[src, "{}Deriv".format(self._fieldType), 0]
+            ) - Asubdiag.T * mkvc(ATinv_df_duT_v[isrc, :])
+            JTv = JTv + initial_deriv(self, du0T_v, adjoint=True, f=f)
 
         # del df_duT_v, ATinv_df_duT_v, A, Asubdiag
         if AdiagTinv is not None:
-- 
2.43.0


From 9e8146674ad2a0f21948b6b4cfb8a082020830c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:19 +0000
Subject: [PATCH 008/154] fix: TDEM current density right-hand side uses the
 source and length of its own time step

---
 simpeg/electromagnetics/time_domain/simulation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index 3307e22..f6b1488 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -2560,12 +2560,9 @@ class Simulation3DCurrentDensity(BaseTDEMSimulation):
         (n_faces, n_sources) numpy.ndarray
             The right-hand sides.
         """
-        if tInd == len(self.time_steps):
-            tInd = tInd - 1
-
         C = self.mesh.edge_curl
         MeMuI = self.MeMuI
-        dt = self.time_steps[tInd]
+        dt = self.time_steps[tInd - 1]
         s_m, s_e = self.getSourceTerm(tInd)
         _, s_en1 = self.getSourceTerm(tInd - 1)
 
-- 
2.43.0


From 14f992d4994d378f7e0e6580edac1ad8a6da1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:19 +0000
Subject: [PATCH 009/154] fix: TDEM dbdt of several sources from the current
 density formulation

---
 simpeg/electromagnetics/time_domain/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/time_domain/fields.py b/simpeg/electromagnetics/time_domain/fields.py
index 927a35e..cd53274 100644
--- a/simpeg/electromagnetics/time_domain/fields.py
+++ b/simpeg/electromagnetics/time_domain/fields.py
@@ -852,7 +852,7 @@ class Fields3DCurrentDensity(FieldsTDEM):
         )
 
     def _dbdt(self, jSolution, source_list, tInd):
-        dhdt = mkvc(self._dhdt(jSolution, source_list, tInd))
+        dhdt = self._dhdt(jSolution, source_list, tInd)
         return self.simulation.MeI * (self.simulation.MeMu * dhdt)
 
     def _dbdtDeriv_u(self, tInd, src, dun_dm_v, adjoint=False):
-- 
2.43.0


From 9533d084cdf5175f59d17d924375c4f55893524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:19 +0000
Subject: [PATCH 010/154] fix: TDEM magnetic dipole and loop sources with
 initial fields are on only before the first time step

---
 simpeg/electromagnetics/time_domain/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index c0d7473..c4a29ea 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -1536,7 +1536,7 @@ class MagDipole(BaseTDEMSrc):
 
             if (
                 self.waveform.has_initial_fields is True
-                and time < simulation.time_steps[1]
+                and time < simulation.times[1]
             ):
                 return C.T * (MfMui * b)
             else:
@@ -1547,7 +1547,7 @@ class MagDipole(BaseTDEMSrc):
 
             if (
                 self.waveform.has_initial_fields is True
-                and time < simulation.time_steps[1]
+                and time < simulation.times[1]
             ):
                 return C * h
             else:
-- 
2.43.0


From ccf3824ffa57814b84b209b983f60b605a307c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 011/154] fix: FDEM b fields of several sources from the
 electric field formulation

---
 simpeg/electromagnetics/frequency_domain/fields.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index d23392e..033bf3d 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -512,6 +512,7 @@ class Fields3DElectricField(FieldsFDEM):
             if not isinstance(s_m, Zero) and s_m.ndim == 1:
                 s_m = s_m[:, None]
             b[:, i:ii] = b[:, i:ii] + 1.0 / (1j * omega(src.frequency)) * s_m
+            i = ii
         return b
 
     def _bDeriv_u(self, src, du_dm_v, adjoint=False):
-- 
2.43.0


From 01ac3e64546696e8e96d18649287f605008632a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 012/154] fix: FDEM permeability derivative of the right-hand
 side with several sources per frequency

---
 simpeg/electromagnetics/frequency_domain/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 179a32c..72a98c8 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -886,7 +886,7 @@ class Simulation3DElectricField(BaseFDEMSimulation):
 
         C = self.mesh.edge_curl
         MfMui = self.MfMui
-        s_m, s_e = self.getSourceTerm(freq)
+        s_m, s_e = src.eval(self)
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
         MfMuiDeriv = self.MfMuiDeriv(s_m)
 
@@ -1764,7 +1764,7 @@ class Simulation3DCurrentDensity(BaseFDEMSimulation):
         MeMuI = self.MeMuI
         MeMuIDeriv = self.MeMuIDeriv
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
-        s_m, _ = self.getSourceTerm(freq)
+        s_m, _ = src.eval(self)
 
         if adjoint:
             if self._makeASymmetric:
-- 
2.43.0


From e4faa45a5992214296f44b7919e5c821305adf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:18 +0000
Subject: [PATCH 013/154] fix: PrimSecSigma source cannot be constructed

---
 simpeg/electromagnetics/frequency_domain/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index dc66248..cb62bd6 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -907,12 +907,12 @@ class PrimSecSigma(BaseFDEMSrc):
         self, receiver_list=None, frequency=None, sigBack=None, ePrimary=None, **kwargs
     ):
         self.sigBack = sigBack
+        self._ePrimary = ePrimary
 
         BaseFDEMSrc.__init__(
             self,
             receiver_list=receiver_list,
             frequency=frequency,
-            _ePrimary=ePrimary,
             **kwargs,
         )
 
-- 
2.43.0


From d7d9af749f5503fdb2e17179059d43a2b97a9fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:56 +0000
Subject: [PATCH 014/154] fix: FDEM current density from the b formulation with
 model dependent sources

---
 simpeg/electromagnetics/frequency_domain/fields.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index 033bf3d..f12edfd 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -971,10 +971,10 @@ class Fields3DMagneticFluxDensity(FieldsFDEM):
     def _jDeriv_mui(self, src, v, adjoint=False):
         if adjoint:
             return self._MfMuiDeriv(
-                self[src, "b"], (self._edgeCurl * (self._MeI.T * v)), adjoint
+                self[src, "bSolution"], (self._edgeCurl * (self._MeI.T * v)), adjoint
             )
 
-        return self._MeI * (self._edgeCurl.T * self._MfMuiDeriv(self[src, "b"], v))
+        return self._MeI * (self._edgeCurl.T * self._MfMuiDeriv(self[src, "bSolution"], v))
 
     def _jDeriv_m(self, src, v, adjoint=False):
         """
@@ -987,8 +987,11 @@ class Fields3DMagneticFluxDensity(FieldsFDEM):
         :return: product of the derivative of the current density with respect
             to the model with a vector
         """
-
-        return self._jDeriv_mui(src, v, adjoint)
+        if adjoint:
+            s_eDeriv = src.s_eDeriv(self.simulation, self._MeI.T * v, adjoint)
+            return self._jDeriv_mui(src, v, adjoint) - s_eDeriv
+        s_eDeriv = src.s_eDeriv(self.simulation, v, adjoint)
+        return self._jDeriv_mui(src, v, adjoint) - self._MeI * s_eDeriv
 
     def _h(self, bSolution, source_list):
         """
-- 
2.43.0


From 6c8ad6a36722b962871d43f112c87a0805642ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:56 +0000
Subject: [PATCH 015/154] fix: adjoint of the initial field derivative of
 closed line currents

---
 simpeg/electromagnetics/time_domain/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index c4a29ea..8ff1578 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -2173,7 +2173,9 @@ class LineCurrent(BaseTDEMSrc):
         numpy.ndarray
             Derivative of initial magnetic flux density times a vector
         """
-        if self.waveform.has_initial_fields is False:
+        if (
+            self.waveform.has_initial_fields is False or self.srcType == "inductive"
+        ):
             return Zero()
 
         if adjoint is True:
-- 
2.43.0


From 8cd0820f65e605ffb858f69bc1df71b0124cb935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:53 +0000
Subject: [PATCH 016/154] fix: electric source term of FDEM magnetic dipoles
 and loops in the H and J formulations with variable permeability

---
 simpeg/electromagnetics/frequency_domain/sources.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index cb62bd6..8966edb 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -631,11 +631,9 @@ class MagDipole(BaseFDEMSrc):
                 MMui_s = simulation.mesh.get_face_inner_product(mui_s)
                 C = simulation.mesh.edge_curl
             elif formulation == "HJ":
-                mu_s = simulation.mu - self.mu
-                MMui_s = simulation.mesh.get_edge_inner_product(
-                    mu_s, invert_matrix=True
-                )
-                C = simulation.mesh.edge_curl.T
+                # the curl of the primary magnetic field is the source current,
+                # and its product with the permeability is in ``s_m``.
+                return Zero()
 
             return -C.T * (MMui_s * self.bPrimary(simulation))
 
-- 
2.43.0


From 4c46a0b8891709f2069f13cb9960b4bde963e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:39 +0000
Subject: [PATCH 017/154] fix: permeability derivative of the magnetic source
 term of FDEM dipoles in the H and J formulations

---
 .../frequency_domain/fields.py                | 25 ++++++++++++++-----
 .../frequency_domain/sources.py               |  6 +++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index f12edfd..5b5e647 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -1459,14 +1459,27 @@ class Fields3DCurrentDensity(FieldsFDEM):
         def s_mDeriv(v):
             return src.s_mDeriv(self.simulation, v, adjoint=adjoint)
 
+        hPrimary = src.hPrimary(self.simulation)
         if adjoint:
             v = self._MeI.T * v
-            return 1.0 / (1j * omega(src.frequency)) * (
-                s_mDeriv(v) - self._MfRhoDeriv(jSolution, self._edgeCurl * v, adjoint)
-            ) + src.bPrimaryDeriv(self.simulation, v, adjoint)
-        return 1.0 / (1j * omega(src.frequency)) * self._MeI * (
-            s_mDeriv(v) - self._edgeCurl.T * self._MfRhoDeriv(jSolution, v, adjoint)
-        ) + src.bPrimaryDeriv(self.simulation, v, adjoint)
+            return (
+                1.0
+                / (1j * omega(src.frequency))
+                * (
+                    s_mDeriv(v)
+                    - self._MfRhoDeriv(jSolution, self._edgeCurl * v, adjoint)
+                )
+                + self.simulation.MeMuDeriv(hPrimary, v, adjoint)
+                + src.bPrimaryDeriv(self.simulation, v, adjoint)
+            )
+        return (
+            1.0
+            / (1j * omega(src.frequency))
+            * self._MeI
+            * (s_mDeriv(v) - self._edgeCurl.T * self._MfRhoDeriv(jSolution, v, adjoint))
+            + self._MeI * self.simulation.MeMuDeriv(hPrimary, v, adjoint)
+            + src.bPrimaryDeriv(self.simulation, v, adjoint)
+        )
 
     def _charge(self, jSolution, source_list):
         r"""
diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index 8966edb..74027a5 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -637,6 +637,12 @@ class MagDipole(BaseFDEMSrc):
 
             return -C.T * (MMui_s * self.bPrimary(simulation))
 
+    def s_mDeriv(self, simulation, v, adjoint=False):
+        if simulation._formulation == "HJ":
+            h_p = self.hPrimary(simulation)
+            return -1j * omega(self.frequency) * simulation.MeMuDeriv(h_p, v, adjoint)
+        return Zero()
+
     def s_eDeriv(self, simulation, v, adjoint=False):
         if not hasattr(simulation, "muMap") or not hasattr(simulation, "muiMap"):
             return Zero()
-- 
2.43.0


From ed602a0e8f0d7d8bad12865fa595ab0e65e1f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:24 +0000
Subject: [PATCH 018/154] fix: layered EM response of oblique receivers to
 sources with a y component

---
 simpeg/electromagnetics/base_1d.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 41ae772..6b2ef18 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -528,7 +528,6 @@ class BaseEM1DSimulation(BaseSimulation):
                             C0 += (
                                 src_y
                                 * rx_x
-                                * rx_x
                                 * (dxyz[:, 0] * dxyz[:, 1] / offsets**2)[:, None]
                                 * lambd**2
                             )
-- 
2.43.0


From 34e33cb76c1ac96a8222ef44b547619e863adfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:24 +0000
Subject: [PATCH 019/154] fix: uniform magnetic viscosity in layered EM with a
 permeability per layer

---
 simpeg/electromagnetics/base_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 6b2ef18..d210c9e 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -352,9 +352,9 @@ class BaseEM1DSimulation(BaseSimulation):
         # Magnetic viscosity
         else:
             if np.isscalar(self.dchi):
-                dchi = self.dchi * np.ones_like(self.mu)
-                tau1 = self.tau1 * np.ones_like(self.mu)
-                tau2 = self.tau2 * np.ones_like(self.mu)
+                dchi = self.dchi
+                tau1 = self.tau1
+                tau2 = self.tau2
             else:
                 dchi = np.tile(self.dchi.reshape([-1, 1]), (1, n_frequency))
                 tau1 = np.tile(self.tau1.reshape([-1, 1]), (1, n_frequency))
-- 
2.43.0


From f6e8d5eead5280f911151133d6aaafea9fe304d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:34 +0000
Subject: [PATCH 020/154] fix: sensitivity of layered EM to the conductivity of
 chargeable layers

---
 simpeg/electromagnetics/frequency_domain/simulation_1d.py | 3 +++
 simpeg/electromagnetics/time_domain/simulation_1d.py      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation_1d.py b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
index c51e8e3..b49dfd5 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
@@ -230,6 +230,9 @@ class Simulation1DLayered(BaseEM1DSimulation):
                     frequencies, unique_lambs, sig, mu, self.thicknesses
                 )
                 if self.sigmaMap is not None:
+                    if np.iscomplexobj(sig):
+                        # chain rule of the Cole-Cole conductivity, linear in sigma
+                        rTE_ds = rTE_ds * (sig / self.sigma[:, None])[..., None]
                     rTE_ds = rTE_ds[:, i_freq]
                     rTE_ds = np.take_along_axis(rTE_ds, inv_lambs[None, ...], axis=-1)
                     v_ds = (
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index d5e7a3b..cecd885 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -335,6 +335,9 @@ class Simulation1DLayered(BaseEM1DSimulation):
                     frequencies, unique_lambs, sig, mu, self.thicknesses
                 )
                 if self.sigmaMap is not None:
+                    if np.iscomplexobj(sig):
+                        # chain rule of the Cole-Cole conductivity, linear in sigma
+                        rTE_ds = rTE_ds * (sig / self.sigma[:, None])[..., None]
                     rTE_ds = rTE_ds[..., inv_lambs]
                     v_ds = (
                         (
-- 
2.43.0


From d2ee339fe82b633e39aa08adf6b28a581bbeb540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:30 +0000
Subject: [PATCH 021/154] fix: layered EM responses ignore the modelled source
 heights

---
 simpeg/electromagnetics/base_1d.py            | 22 ++++++-
 .../frequency_domain/simulation_1d.py         | 66 ++++---------------
 .../time_domain/simulation_1d.py              | 49 ++++----------
 3 files changed, 45 insertions(+), 92 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index d210c9e..b359b3a 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -463,7 +463,8 @@ class BaseEM1DSimulation(BaseSimulation):
 
                 if is_wire_loop:
                     dxy = rx.locations[:, :2] - xyks
-                    h = src.location.mean(axis=0)[2] - self.topo[-1]
+                    if self.hMap is None:
+                        h = src.location.mean(axis=0)[2] - self.topo[-1]
                     z = h + rx.locations[:, 2] - src.location.mean(axis=0)[2]
                     offsets = np.linalg.norm(dxy, axis=-1)
                 else:
@@ -612,6 +613,25 @@ class BaseEM1DSimulation(BaseSimulation):
         self._W = sp.coo_matrix((data, (Is, Js)), shape=(n_col, n_row))
         self._W = self._W.tocsr()
 
+    def _source_of_coefficients(self):
+        """Index of the source each row of the Hankel coefficients belongs to."""
+        n_rows = []
+        for src in self.survey.source_list:
+            n_row = sum(rx.locations.shape[0] for rx in src.receiver_list)
+            if type(src).__name__ == "LineCurrent":
+                n_row *= src.n_segments * self.n_points_per_path
+            n_rows.append(n_row)
+        return np.repeat(np.arange(len(n_rows)), n_rows)
+
+    def _get_C0s_C1s(self):
+        """Hankel coefficients, at the current heights if they are in the model."""
+        if self.hMap is None:
+            return self._C0s, self._C1s
+        # `_C0s` and `_C1s` are then those of sources at zero height.
+        h = self.h[self._source_of_coefficients()]
+        decay = np.exp(-2.0 * self._lambs * h[:, None])
+        return self._C0s * decay, self._C1s * decay
+
     @property
     def _delete_on_model_update(self):
         toDelete = super()._delete_on_model_update
diff --git a/simpeg/electromagnetics/frequency_domain/simulation_1d.py b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
index b49dfd5..5080876 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
@@ -108,8 +108,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
 
         self.model = m
 
-        C0s = self._C0s
-        C1s = self._C1s
+        C0s, C1s = self._get_C0s_C1s()
         W = self._W
 
         frequencies = np.array(self.survey.frequencies)
@@ -153,8 +152,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
             self._J = {}
             self._compute_coefficients()
 
-            C0s = self._C0s
-            C1s = self._C1s
+            C0s, C1s = self._get_C0s_C1s()
             lambs = self._lambs
             frequencies = np.array(self.survey.frequencies)
             unique_lambs = self._unique_lambs
@@ -166,59 +164,19 @@ class Simulation1DLayered(BaseEM1DSimulation):
             mu = self.compute_complex_mu(frequencies)
 
             if self.hMap is not None:
-                # Grab a copy
-                C0s_dh = C0s.copy()
-                C1s_dh = C1s.copy()
-                h_vec = self.h
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    class_name = type(src).__name__
-                    is_wire_loop = class_name == "LineCurrent"
-
-                    h = h_vec[i_src]
-                    if is_wire_loop:
-                        n_quad_points = src.n_segments * self.n_points_per_path
-                        nD = sum(
-                            rx.locations.shape[0] * n_quad_points
-                            for rx in src.receiver_list
-                        )
-                    else:
-                        nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v = np.exp(-lambs[i:ip1] * h)
-                    C0s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    C1s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    i = ip1
-                    # J will be n_d * n_src (each source has it's own h)...
-
                 rTE = rTE_forward(frequencies, unique_lambs, sig, mu, self.thicknesses)
                 rTE = rTE[i_freq]
                 rTE = np.take_along_axis(rTE, inv_lambs, axis=1)
-                v_dh_temp = ((C0s_dh * rTE) @ self._fhtfilt.j0).real + (
-                    (C1s_dh * rTE) @ self._fhtfilt.j1
-                ).real
-                v_dh_temp += W @ v_dh_temp
-                # need to re-arange v_dh as it's currently (n_data x 1)
-                # however it already contains all the relevant information...
-                # just need to map it from the rx index to the source index associated..
-                v_dh = np.zeros((self.survey.nSrc, v_dh_temp.shape[0]))
-
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    class_name = type(src).__name__
-                    is_wire_loop = class_name == "LineCurrent"
-                    if is_wire_loop:
-                        n_quad_points = src.n_segments * self.n_points_per_path
-                        nD = sum(
-                            rx.locations.shape[0] * n_quad_points
-                            for rx in src.receiver_list
-                        )
-                    else:
-                        nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v_dh[i_src, i:ip1] = v_dh_temp[i:ip1]
-                    i = ip1
-                v_dh = v_dh.T
+                # the coefficients depend on the height h as exp(-2 lambda h)
+                v_dh = -2.0 * (
+                    (C0s * lambs * rTE) @ self._fhtfilt.j0
+                    + (C1s * lambs * rTE) @ self._fhtfilt.j1
+                )
+                # J is n_d * n_src (each source has it's own h)
+                i_src = self._source_of_coefficients()
+                v_dh = W @ (
+                    v_dh[:, None] * (i_src[:, None] == np.arange(self.survey.nSrc))
+                )
                 self._J["dh"] = self._project_to_data(v_dh)
 
             if (
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index cecd885..ba63951 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -232,8 +232,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
 
         self.model = m
 
-        C0s = self._C0s
-        C1s = self._C1s
+        C0s, C1s = self._get_C0s_C1s()
 
         frequencies = self._frequencies
         unique_lambs = self._unique_lambs
@@ -275,8 +274,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
             self._J = {}
             self._compute_coefficients()
 
-            C0s = self._C0s
-            C1s = self._C1s
+            C0s, C1s = self._get_C0s_C1s()
             lambs = self._lambs
             frequencies = self._frequencies
             unique_lambs = self._unique_lambs
@@ -288,42 +286,19 @@ class Simulation1DLayered(BaseEM1DSimulation):
             mu = self.compute_complex_mu(frequencies)
 
             if self.hMap is not None:
-                # Grab a copy
-                C0s_dh = C0s.copy()
-                C1s_dh = C1s.copy()
-                h_vec = self.h
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    h = h_vec[i_src]
-                    nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v = np.exp(-lambs[i:ip1] * h)
-                    C0s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    C1s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    i = ip1
-                    # J will be n_d * n_src (each source has it's own h)...
-
                 rTE = rTE_forward(frequencies, unique_lambs, sig, mu, self.thicknesses)
                 rTE = rTE[:, inv_lambs]
-                v_dh_temp = (
-                    W
-                    @ (
-                        ((C0s_dh * rTE) @ self._fhtfilt.j0).real
-                        + ((C1s_dh * rTE) @ self._fhtfilt.j1).real
-                    ).T
+                # the coefficients depend on the height h as exp(-2 lambda h)
+                v_dh = -2.0 * (
+                    (C0s * lambs * rTE) @ self._fhtfilt.j0
+                    + (C1s * lambs * rTE) @ self._fhtfilt.j1
+                )
+                # J is n_d * n_src (each source has it's own h)
+                i_src = self._source_of_coefficients()
+                v_dh = v_dh[:, :, None] * (
+                    i_src[:, None] == np.arange(self.survey.nSrc)
                 )
-                # need to re-arange v_dh as it's currently (n_data x n_freqs)
-                # however it already contains all the relevant information...
-                # just need to map it from the rx index to the source index associated..
-                v_dh = np.zeros((self.survey.nSrc, *v_dh_temp.shape))
-
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v_dh[i_src, i:ip1] = v_dh_temp[i:ip1]
-                    i = ip1
-                v_dh = np.transpose(v_dh, (1, 2, 0))
+                v_dh = np.einsum("ij,kjl->ikl", W, v_dh)
                 self._J["dh"] = self._project_to_data(v_dh)
 
             if (
-- 
2.43.0


From 89ca9cd8c946e9465c9eed8a9547ffae601de98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:08 +0000
Subject: [PATCH 022/154] fix: stored sensitivity of the differential magnetic
 simulation

---
 simpeg/potential_fields/magnetics/simulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 6b403dd..bb4db69 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -1700,6 +1700,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
     """
 
     _Ainv = None
+    _Jmatrix = None
 
     rem, remMap, remDeriv = props.Invertible(
         "Magnetic Polarization (nT)", optional=True
@@ -1968,7 +1969,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
     def getJ(self, m, f=None):
         self.model = m
-        if self._Jmatrix:
+        if self._Jmatrix is not None:
             return self._Jmatrix
         if f is None:
             f = self.fields(m)
@@ -2192,9 +2193,9 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
         toDelete = super()._delete_on_model_update
         if self._stored_fields is not None:
             toDelete = toDelete + ["_stored_fields"]
+        if self._Jmatrix is not None:
+            toDelete = toDelete + ["_Jmatrix"]
         if self.muMap is not None:
             if self._Ainv is not None:
                 toDelete = toDelete + ["_Ainv"]
-            if self._Jmatrix is not None:
-                toDelete = toDelete + ["_Jmatrix"]
         return toDelete
-- 
2.43.0


From 8584c2681679fd17aadd090170d78988bf7d5c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:10 +0000
Subject: [PATCH 023/154] fix: log-uniform VRM responses of several sources,
 receivers, locations and times

---
 .../viscous_remanent_magnetization/simulation.py           | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py b/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
index 6d4a63c..ece7e90 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
@@ -1038,9 +1038,11 @@ class Simulation3DLogUniform(BaseVRMSimulation):
             receiver_list = source_list[pp].receiver_list
             nRx = len(receiver_list)
             waveObj = source_list[pp].waveform
+            row = 0
 
             for qq in range(0, nRx):
                 times = receiver_list[qq].times
+                nLoc = np.shape(receiver_list[qq].locations)[0]
                 eta = waveObj.getLogUniformDecay(
                     receiver_list[qq].field_type,
                     times,
@@ -1050,6 +1052,9 @@ class Simulation3DLogUniform(BaseVRMSimulation):
                     self.tau2,
                 )
 
-                f.append(mkvc(self.A[qq] @ eta))
+                # rows of this receiver; all times of a location are contiguous
+                A = self.A[pp][row : row + nLoc]
+                f.append(mkvc((A @ eta).T))
+                row += nLoc
 
         return np.array(np.hstack(f))
-- 
2.43.0


From f07e9eca4580289a0540c92406410ea3395fd89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:10 +0000
Subject: [PATCH 024/154] fix: custom VRM waveforms cannot be used by the
 simulations

---
 .../viscous_remanent_magnetization/waveforms.py              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
index e76da90..8b862f3 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
@@ -584,11 +584,14 @@ class Custom(BaseVRMWaveform):
     def waveform_function(self, value):
         self._waveform_function = validate_callable("waveform_function", value)
 
-    def getCharDecay(self, times):
+    def getCharDecay(self, fieldType, times):
         """Returns characteristic decay function at specified times
 
         Parameters
         ----------
+        fieldType : str
+            Field type of the receiver. The function handle defines the decay of
+            this field; it is not used otherwise.
         times : numpy.ndarray
             Off-times where characteristic decay is evaluated
         """
-- 
2.43.0


From ffde99d45a7a8c77e8db57f6b3689045e092893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:10 +0000
Subject: [PATCH 025/154] fix: Richards Jtvec without precomputed fields

---
 simpeg/flow/richards/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/flow/richards/simulation.py b/simpeg/flow/richards/simulation.py
index 97c2e58..b959189 100644
--- a/simpeg/flow/richards/simulation.py
+++ b/simpeg/flow/richards/simulation.py
@@ -414,7 +414,7 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
     @utils.timeIt
     def Jtvec(self, m, v, f=None):
         if f is None:
-            f = self.field(m)
+            f = self.fields(m)
 
         PTv, PTdv = self.survey.derivAdjoint(self, f, v=v)
 
-- 
2.43.0


From c3c261dfd1b801a8ed758da8ba03375039c3e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:17 +0000
Subject: [PATCH 026/154] fix: straight rays along interior grid lines are
 counted twice

---
 simpeg/seismic/straight_ray_tomography/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpeg/seismic/straight_ray_tomography/simulation.py b/simpeg/seismic/straight_ray_tomography/simulation.py
index 1070f1d..a372a06 100644
--- a/simpeg/seismic/straight_ray_tomography/simulation.py
+++ b/simpeg/seismic/straight_ray_tomography/simulation.py
@@ -71,6 +71,11 @@ def _lineintegral(M, Tx, Rx):
                 I += [i]
                 J += [j]
                 V += [v]
+    # a ray along an interior grid line is shared by the cells on both of its sides
+    if (D[0] == 0 and O[0] in M.nodes_x[1:-1]) or (
+        D[1] == 0 and O[1] in M.nodes_y[1:-1]
+    ):
+        V = [0.5 * v for v in V]
     inds = sub2ind(M.vnC, np.array([I, J]).T)
     return inds, V
 
-- 
2.43.0


From 897c3457e5c52207c0e0decf30b871eb5ef32029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:17 +0000
Subject: [PATCH 027/154] fix: weighted Gram diagonal without stored
 sensitivities uses the weights of other data

---
 simpeg/potential_fields/gravity/simulation.py | 22 +++++++++++---
 .../potential_fields/magnetics/simulation.py  | 30 ++++++++++++++-----
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/simpeg/potential_fields/gravity/simulation.py b/simpeg/potential_fields/gravity/simulation.py
index 434ba52..8afce7d 100644
--- a/simpeg/potential_fields/gravity/simulation.py
+++ b/simpeg/potential_fields/gravity/simulation.py
@@ -708,8 +708,14 @@ class Simulation3DIntegral(BasePFSimulation):
         # Allocate array for the diagonal of G.T @ G
         diagonal = np.zeros(self.nC, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                component_weights = weights[
+                    index_offset + i : index_offset + n_rows : n_components
+                ]
                 kernel_func = CHOCLO_KERNELS[component]
                 conversion_factor = _get_conversion_factor(component)
                 diagonal_gtg_func(
@@ -718,9 +724,10 @@ class Simulation3DIntegral(BasePFSimulation):
                     active_cell_nodes,
                     kernel_func,
                     constants.G * conversion_factor,
-                    weights,
+                    component_weights,
                     diagonal,
                 )
+            index_offset += n_rows
         return diagonal
 
 
@@ -922,8 +929,14 @@ class SimulationEquivalentSourceLayer(
         # Allocate array for the diagonal of G.T @ G
         diagonal = np.zeros(self.nC, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                component_weights = weights[
+                    index_offset + i : index_offset + n_rows : n_components
+                ]
                 choclo_forward_func = CHOCLO_FORWARD_FUNCS[component]
                 conversion_factor = _get_conversion_factor(component)
                 diagonal_gtg_func(
@@ -933,9 +946,10 @@ class SimulationEquivalentSourceLayer(
                     self.cell_z_bottom,
                     choclo_forward_func,
                     conversion_factor,
-                    weights,
+                    component_weights,
                     diagonal,
                 )
+            index_offset += n_rows
         return diagonal
 
 
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index bb4db69..4a800e5 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -1167,13 +1167,19 @@ class Simulation3DIntegral(BasePFSimulation):
         diagonal = np.zeros(n_columns, dtype=np.float64)
 
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
             if not CHOCLO_SUPPORTED_COMPONENTS.issuperset(components):
                 raise NotImplementedError(
                     f"Other components besides {CHOCLO_SUPPORTED_COMPONENTS} "
                     "aren't implemented yet."
                 )
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                component_weights = weights[
+                    index_offset + i : index_offset + n_rows : n_components
+                ]
                 if component == "tmi":
                     diagonal_gtg_func = NUMBA_FUNCTIONS_3D["diagonal_gtg"]["tmi"][
                         self.numba_parallel
@@ -1185,7 +1191,7 @@ class Simulation3DIntegral(BasePFSimulation):
                         regional_field,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
                 elif component in ("tmi_x", "tmi_y", "tmi_z"):
@@ -1208,7 +1214,7 @@ class Simulation3DIntegral(BasePFSimulation):
                         kernel_yz,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
                 else:
@@ -1226,9 +1232,10 @@ class Simulation3DIntegral(BasePFSimulation):
                         kernel_z,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
+            index_offset += n_rows
         return diagonal
 
 
@@ -1585,13 +1592,19 @@ class SimulationEquivalentSourceLayer(
         n_columns = self.nC if scalar_model else 3 * self.nC
         diagonal = np.zeros(n_columns, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
             if not CHOCLO_SUPPORTED_COMPONENTS.issuperset(components):
                 raise NotImplementedError(
                     f"Other components besides {CHOCLO_SUPPORTED_COMPONENTS} "
                     "aren't implemented yet."
                 )
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                component_weights = weights[
+                    index_offset + i : index_offset + n_rows : n_components
+                ]
                 if component == "tmi":
                     diagonal_gtg_func = NUMBA_FUNCTIONS_2D["diagonal_gtg"]["tmi"][
                         self.numba_parallel
@@ -1604,7 +1617,7 @@ class SimulationEquivalentSourceLayer(
                         regional_field,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
                 elif component in ("tmi_x", "tmi_y", "tmi_z"):
@@ -1628,7 +1641,7 @@ class SimulationEquivalentSourceLayer(
                         kernel_yz,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
                 else:
@@ -1647,9 +1660,10 @@ class SimulationEquivalentSourceLayer(
                         kernel_z,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
+            index_offset += n_rows
         return diagonal
 
 
-- 
2.43.0


From 89023f0a90dba421d66e2d0a03022247ab938352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:17 +0000
Subject: [PATCH 028/154] fix: Gram diagonal of magnetic amplitude data without
 weights and after a model change

---
 simpeg/potential_fields/magnetics/simulation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 4a800e5..4cc4b69 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -384,14 +384,18 @@ class Simulation3DIntegral(BasePFSimulation):
         weights = (
             W.diagonal() ** 2
             if W is not None
-            else np.ones(self.survey.nD, dtype=np.float64)
+            else np.ones(
+                self.survey.nD // 3 if self.is_amplitude_data else self.survey.nD,
+                dtype=np.float64,
+            )
         )
 
         # Compute gtg (G.T @ W.T @ W @ G) if it's not cached, or if the
-        # weights are not the same.
+        # weights are not the same. That of amplitudes depends on the model.
         weights_sha256 = hashlib.sha256(weights)
         use_cached_gtg = (
-            hasattr(self, "_gtg_diagonal")
+            not self.is_amplitude_data
+            and hasattr(self, "_gtg_diagonal")
             and hasattr(self, "_weights_sha256")
             and self._weights_sha256.digest() == weights_sha256.digest()
         )
-- 
2.43.0


From c9ffbe0163a3db7a668756a10667f95248e83431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:35 +0000
Subject: [PATCH 029/154] fix: Gram diagonals of electromagnetic simulations
 ignore changed weights, models and cross terms

---
 simpeg/electromagnetics/base_1d.py            | 36 ++++++++-----------
 .../frequency_domain/simulation.py            | 17 ++++-----
 .../natural_source/simulation_1d.py           | 28 +++++++--------
 .../static/induced_polarization/simulation.py | 15 ++++----
 .../static/resistivity/simulation.py          | 20 +++++------
 5 files changed, 48 insertions(+), 68 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index b359b3a..81dbe5c 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -656,24 +656,18 @@ class BaseEM1DSimulation(BaseSimulation):
         return delta
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            Js = self._getJ(m, f=f)
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal() ** 2
-            out = 0.0
-            if self.hMap is not None:
-                J = Js["dh"] @ self.hDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.sigmaMap is not None:
-                J = Js["ds"] @ self.sigmaDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.muMap is not None:
-                J = Js["dmu"] @ self.muDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.thicknessesMap is not None:
-                J = Js["dthick"] @ self.thicknessesDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            self._gtgdiag = out
-        return self._gtgdiag
+        Js = self._getJ(m, f=f)
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal() ** 2
+        J = 0.0
+        if self.hMap is not None:
+            J = J + Js["dh"] @ self.hDeriv
+        if self.sigmaMap is not None:
+            J = J + Js["ds"] @ self.sigmaDeriv
+        if self.muMap is not None:
+            J = J + Js["dmu"] @ self.muDeriv
+        if self.thicknessesMap is not None:
+            J = J + Js["dthick"] @ self.thicknessesDeriv
+        return np.einsum("i,ij,ij->j", W, J, J)
diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 72a98c8..48ce7f2 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -424,19 +424,14 @@ class BaseFDEMSimulation(BaseEMSimulation):
         """
         self.model = m
 
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
+        J = self.getJ(m, f=f)
 
-            if W is None:
-                W = np.ones(J.shape[0])
-            else:
-                W = W.diagonal() ** 2
-
-            diag = np.einsum("i,ij,ij->j", W, J, J)
-
-            self._gtgdiag = diag
+        if W is None:
+            W = np.ones(J.shape[0])
+        else:
+            W = W.diagonal() ** 2
 
-        return self._gtgdiag
+        return np.einsum("i,ij,ij->j", W, J, J)
 
     # @profile
     def getSourceTerm(self, freq):
diff --git a/simpeg/electromagnetics/natural_source/simulation_1d.py b/simpeg/electromagnetics/natural_source/simulation_1d.py
index ef03577..0e2931c 100644
--- a/simpeg/electromagnetics/natural_source/simulation_1d.py
+++ b/simpeg/electromagnetics/natural_source/simulation_1d.py
@@ -315,22 +315,18 @@ class Simulation1DRecursive(BaseSimulation):
         return self._Jmatrix
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            Js = self.getJ(m, f=f)
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal() ** 2
-
-            gtgdiag = 0
-            if self.sigmaMap is not None:
-                J = Js["sigma"] @ self.sigmaDeriv
-                gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
-            if self.thicknessesMap is not None:
-                J = Js["thick"] @ self.thicknessesDeriv
-                gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
-            self._gtgdiag = gtgdiag
-        return self._gtgdiag
+        Js = self.getJ(m, f=f)
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal() ** 2
+
+        J = 0
+        if self.sigmaMap is not None:
+            J = J + Js["sigma"] @ self.sigmaDeriv
+        if self.thicknessesMap is not None:
+            J = J + Js["thick"] @ self.thicknessesDeriv
+        return np.einsum("i,ij,ij->j", W, J, J)
 
     def Jvec(self, m, v, f=None):
         J = self.getJ(m, f=None)
diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index 30c7dae..e36b418 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -113,16 +113,13 @@ class BaseIPSimulation(BasePDESimulation):
         return self._pred
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
-            if W is None:
-                W = self._scale**2
-            else:
-                W = (self._scale * W.diagonal()) ** 2
+        J = self.getJ(m, f=f)
+        if W is None:
+            W = self._scale**2
+        else:
+            W = (self._scale * W.diagonal()) ** 2
 
-            self._gtgdiag = np.einsum("i,ij,ij->j", W, J, J)
-
-        return self._gtgdiag
+        return np.einsum("i,ij,ij->j", W, J, J)
 
     def Jvec(self, m, v, f=None):
         return self._scale * super().Jvec(m, v, f)
diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index 203419d..7d4d0e2 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -138,20 +138,18 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         """
         Return the diagonal of JtJ
         """
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
+        J = self.getJ(m, f=f)
 
-            if W is None:
-                W = np.ones(J.shape[0])
-            else:
-                W = W.diagonal() ** 2
+        if W is None:
+            W = np.ones(J.shape[0])
+        else:
+            W = W.diagonal() ** 2
 
-            diag = np.zeros(J.shape[1])
-            for i in range(J.shape[0]):
-                diag += (W[i]) * (J[i] * J[i])
+        diag = np.zeros(J.shape[1])
+        for i in range(J.shape[0]):
+            diag += (W[i]) * (J[i] * J[i])
 
-            self._gtgdiag = diag
-        return self._gtgdiag
+        return diag
 
     def Jvec(self, m, v, f=None):
         """
-- 
2.43.0


From 2b2b95e4d4f11934e71ed26836bd5a571b01d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 030/154] fix: full FDEM sensitivity of receivers whose fields
 depend on the model

---
 .../frequency_domain/simulation.py                | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 48ce7f2..1e68454 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -366,7 +366,8 @@ class BaseFDEMSimulation(BaseEMSimulation):
                     u_src = f[src, self._solutionType]
 
                     for rx in src.receiver_list:
-                        v = np.eye(rx.nD, dtype=float)
+                        # derivatives of a single datum are vectors
+                        v = np.eye(rx.nD, dtype=float) if rx.nD > 1 else np.ones(1)
 
                         df_duT, df_dmT = rx.evalDeriv(
                             src, self.mesh, f, v=v, adjoint=True
@@ -378,14 +379,12 @@ class BaseFDEMSimulation(BaseEMSimulation):
                         dRHS_dmT = self.getRHSDeriv(
                             freq, src, ATinvdf_duT, adjoint=True
                         )
-                        du_dmT = -dA_dmT
+                        du_dmT = np.zeros((m_size, rx.nD), dtype=complex)
+                        for deriv in (-dA_dmT, dRHS_dmT, df_dmT):
+                            if not isinstance(deriv, Zero):
+                                du_dmT += np.reshape(deriv, du_dmT.shape)
 
-                        if not isinstance(dRHS_dmT, Zero):
-                            du_dmT += dRHS_dmT
-                        if not isinstance(df_dmT[0], Zero):
-                            du_dmT += np.hstack(df_dmT)
-
-                        block = np.array(du_dmT, dtype=complex).real.T
+                        block = du_dmT.real.T
 
                         src_rx_slice = survey_slices[src, rx]
                         Jmatrix[src_rx_slice] = block
-- 
2.43.0


From f3b55e4d3c89e28f91eb25f5fd3f4e30637cb656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 031/154] fix: full sensitivity of natural source admittance
 and apparent conductivity data

---
 .../natural_source/receivers.py               | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/receivers.py b/simpeg/electromagnetics/natural_source/receivers.py
index 86cbe0b..33ec328 100644
--- a/simpeg/electromagnetics/natural_source/receivers.py
+++ b/simpeg/electromagnetics/natural_source/receivers.py
@@ -7,7 +7,6 @@ from ...utils.code_utils import (
 import numpy as np
 from scipy.constants import mu_0
 from ...survey import BaseRx
-from simpeg.utils import mkvc
 
 
 def _alpha(src):
@@ -1068,13 +1067,19 @@ class Admittance(_ElectricAndMagneticReceiver):
 
             else:
 
-                ex_v = np.c_[ey[:, 1], -ey[:, 0]] * b_v[:, None]  # terms dex in bot
-                ey_v = np.c_[-ex[:, 1], ex[:, 0]] * b_v[:, None]  # terms dey in bot
-                ex_v[:, p_ind] -= h[:, 1] * a_v  # add terms dex in top
-                ey_v[:, p_ind] += h[:, 0] * a_v  # add terms dey in top
-                e_v = Pex.T @ ex_v + Pey.T @ ey_v
+                ex_v = np.c_[ey[:, 1], -ey[:, 0]] * b_v[..., None]  # terms dex in bot
+                ey_v = np.c_[-ex[:, 1], ex[:, 0]] * b_v[..., None]  # terms dey in bot
+                ex_v[..., p_ind] -= h[:, 1] * a_v  # add terms dex in top
+                ey_v[..., p_ind] += h[:, 0] * a_v  # add terms dey in top
+                h_v = np.c_[ey[:, p_ind], -ex[:, p_ind]] * a_v[..., None]  # h in top
+
+                if v.ndim == 2:
+                    # collapse into a long list of n_d vectors
+                    ex_v = ex_v.reshape((self.nD, -1))
+                    ey_v = ey_v.reshape((self.nD, -1))
+                    h_v = h_v.reshape((self.nD, -1))
 
-                h_v = np.c_[ey[:, p_ind], -ex[:, p_ind]] * a_v[:, None]  # h in top
+                e_v = Pex.T @ ex_v + Pey.T @ ey_v
                 h_v = Ph.T @ h_v
 
             fu_e_v, fm_e_v = f._eDeriv(src, None, e_v, adjoint=True)
@@ -1232,14 +1237,19 @@ class ApparentConductivity(_ElectricAndMagneticReceiver):
             a_v = fact * v / bot  # term 1
             b_v = -fact * top * v / bot**2  # term 2
 
-            a_v = np.repeat(mkvc(a_v, n_dims=2), 2, axis=-1)
-            b_v = np.repeat(mkvc(b_v, n_dims=2), 2, axis=-1)
-
-            hx *= a_v
-            hy *= a_v
-            hz *= a_v
-            ex *= b_v
-            ey *= b_v
+            hx = hx * a_v[..., None]
+            hy = hy * a_v[..., None]
+            hz = hz * a_v[..., None]
+            ex = ex * b_v[..., None]
+            ey = ey * b_v[..., None]
+
+            if v.ndim == 2:
+                # collapse into a long list of n_d vectors
+                hx = hx.reshape((self.nD, -1))
+                hy = hy.reshape((self.nD, -1))
+                hz = hz.reshape((self.nD, -1))
+                ex = ex.reshape((self.nD, -1))
+                ey = ey.reshape((self.nD, -1))
 
             e_v = 2 * (Pex.T @ ex + Pey.T @ ey).conjugate()
             h_v = 2 * (Phx.T @ hx + Phy.T @ hy + Phz.T @ hz).conjugate()
-- 
2.43.0


From d956feae7725dc10c02597a84ebf7aa01a6be0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:28 +0000
Subject: [PATCH 032/154] fix: small and in-place model changes leave stale
 cached matrices

---
 simpeg/props.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index ee9ac01..d7b98e6 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -416,9 +416,10 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
                 )
 
             # coerce to a numpy array
+            # keep a copy, such that changes of the caller's array are noticed
             value = validate_ndarray_with_shape(
                 "model", value, shape=("*",), dtype=float
-            )
+            ).copy()
 
             # Check the model is a good shape
             errors = []
@@ -460,7 +461,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
             if not (
                 isinstance(previous_value, np.ndarray)
                 and isinstance(value, np.ndarray)
-                and np.allclose(previous_value, value)
+                and np.array_equal(previous_value, value)
             ):
                 # cached properties to delete
                 for prop in self._delete_on_model_update:
@@ -478,7 +479,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
 
     @model.deleter
     def model(self):
-        self._model = (None,)
+        self._model = None
         # cached properties to delete
         for prop in self._delete_on_model_update:
             if hasattr(self, prop):
-- 
2.43.0


From 464d0bdfc085c688f0c0d0982b68a9e8715836d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:55 +0000
Subject: [PATCH 033/154] fix: reassigned mappings and properties leave stale
 cached matrices

---
 simpeg/props.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/simpeg/props.py b/simpeg/props.py
index d7b98e6..02dbd89 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -58,8 +58,10 @@ class Mapping:
         def fset(self, value):
             if value is not None:
                 value = validate_type(scope.name, value, IdentityMap, cast=False)
+                self._clear_model_dependents()
                 scope.clear_props(self)
             setattr(self, f"_{scope.name}", value)
+            self._clear_model_dependents()
 
         def fdel(self):
             setattr(self, f"_{scope.name}", None)
@@ -178,10 +180,12 @@ class PhysicalProperty:
                 if value.ndim == 0:
                     value = value.item()
 
+                self._clear_model_dependents()
                 if scope.reciprocal:
                     delattr(self, scope.reciprocal.name)
                 scope.clear_mappings(self)
             setattr(self, f"_{scope.name}", value)
+            self._clear_model_dependents()
 
         def fdel(self):
             setattr(self, f"_{scope.name}", None)
@@ -395,6 +399,14 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
         )
         return []
 
+    def _clear_model_dependents(self):
+        """Delete what was computed from the physical properties and the model."""
+        if getattr(self, "_model", None) is None:
+            return
+        for prop in self._delete_on_model_update:
+            if hasattr(self, prop):
+                delattr(self, prop)
+
     @property
     def model(self):
         """The inversion model.
-- 
2.43.0


From c394fb5e342f8a0c5dcea7a07a5f56a6e8f67863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:06 +0000
Subject: [PATCH 034/154] fix: 2D nodal DC boundary derivative is not updated
 with the model

---
 .../electromagnetics/static/resistivity/simulation_2d.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index 16b591f..3075e8f 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -801,5 +801,13 @@ class Simulation2DNodal(BaseDCSimulation2D):
             AvgCC2Fb = sdiag(alpha * (P_bf @ self.mesh.face_areas)) @ AvgCC2Fb
             self._AvgBC[ky] = AvgN2Fb.T @ AvgCC2Fb
 
+    @property
+    def _clear_on_sigma_update(self):
+        """
+        These matrices are deleted if there is an update to the conductivity
+        model
+        """
+        return super()._clear_on_sigma_update + ["_MBC_sigma"]
+
 
 Simulation2DCellCentred = Simulation2DCellCentered  # UK and US
-- 
2.43.0


From 757b0985f1acafa0c3ce9e03299dd2a33a4602b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:06 +0000
Subject: [PATCH 035/154] fix: differential magnetics keeps fields and
 factorization of a replaced permeability

---
 simpeg/potential_fields/magnetics/simulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 4cc4b69..a99cae0 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -2217,3 +2217,11 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
             if self._Ainv is not None:
                 toDelete = toDelete + ["_Ainv"]
         return toDelete
+
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        if name in ["mu", "mui", "muMap", "muiMap"]:
+            self._Ainv = None
+        if name in ["mu", "mui", "muMap", "muiMap", "rem", "remMap"]:
+            self._stored_fields = None
+            self._Jmatrix = None
-- 
2.43.0


From b0544e8ca8df699e41f907284b9580ee52dfcb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:06 +0000
Subject: [PATCH 036/154] fix: stored self potential sensitivity survives
 changes of conductivity and mapping

---
 simpeg/electromagnetics/static/self_potential/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpeg/electromagnetics/static/self_potential/simulation.py b/simpeg/electromagnetics/static/self_potential/simulation.py
index 05a657a..fdd852a 100644
--- a/simpeg/electromagnetics/static/self_potential/simulation.py
+++ b/simpeg/electromagnetics/static/self_potential/simulation.py
@@ -86,6 +86,11 @@ class Simulation3DCellCentered(dc.Simulation3DCellCentered):
             return ["_Jmatrix", "_gtgdiag"]
         return []
 
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        if name in ["sigma", "rho", "qMap"]:
+            self._Jmatrix = None
+
 
 class CurrentDensityMap(maps.LinearMap):
     r"""Maps current density to charge density accumulation rate.
-- 
2.43.0


From ac50f1f3ec28806cf3d15be61b64a36c3b681771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:48 +0000
Subject: [PATCH 037/154] fix: self potential sensitivity formed by getJ
 survives model changes when it is not stored

---
 simpeg/electromagnetics/static/self_potential/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/self_potential/simulation.py b/simpeg/electromagnetics/static/self_potential/simulation.py
index fdd852a..8abd611 100644
--- a/simpeg/electromagnetics/static/self_potential/simulation.py
+++ b/simpeg/electromagnetics/static/self_potential/simulation.py
@@ -82,7 +82,7 @@ class Simulation3DCellCentered(dc.Simulation3DCellCentered):
         # When enabling resistivity derivatives, uncomment these lines
         # if self.rhoMap is not None:
         #     return super()._delete_on_model_update
-        if self.storeJ and self.qMap is not None and not self.qMap.is_linear:
+        if self.qMap is not None and not self.qMap.is_linear:
             return ["_Jmatrix", "_gtgdiag"]
         return []
 
-- 
2.43.0


From 6044455c3cc5cd7fecfc1c67a787f7b622fb0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:48 +0000
Subject: [PATCH 038/154] fix: IP and spectral IP predictions and sensitivities
 of earlier models, conductivities and mappings

---
 .../static/induced_polarization/simulation.py | 17 +++++++++++++-
 .../simulation.py                             | 22 +++++++++----------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index e36b418..aa732a1 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -86,6 +86,18 @@ class BaseIPSimulation(BasePDESimulation):
     _Jmatrix = None
     _pred = None
 
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        if name in ["sigma", "rho"]:
+            # the DC fields and everything computed from them
+            self._f = None
+            self.__dict__.pop("_scale", None)
+        if name in ["sigma", "rho", "etaMap"]:
+            self._Jmatrix = None
+            for mat in self._clear_on_sigma_update + self._clear_on_rho_update:
+                if hasattr(self, mat):
+                    delattr(self, mat)
+
     def fields(self, m):
         if self.verbose:
             print(">> Compute DC fields")
@@ -106,9 +118,12 @@ class BaseIPSimulation(BasePDESimulation):
             d_\text{pred} = Pf(m)
 
         """
-        # return self.Jvec(m, m, f=f)
+        if m is None:
+            m = self.model
         if f is None:
             f = self.fields(m)
+        else:
+            self._pred = self.forward(m, f=f)
 
         return self._pred
 
diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index e6b74d4..10523fe 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -428,16 +428,19 @@ class BaseSIPSimulation(BaseIPSimulation):
         return JtJdiag
 
     # @profile
-    def forward(self, m, f=None):
-        if self.verbose:
-            print(">> Compute predicted data")
-
+    def _set_model(self, m):
+        """Set the model and the properties used to compute pseudo-chargeabilities."""
         self.model = m
-
         self._eta_store = self.eta
         self._taui_store = self.taui
         self._c_store = self.c
 
+    def forward(self, m, f=None):
+        if self.verbose:
+            print(">> Compute predicted data")
+
+        self._set_model(m)
+
         Jv = []
 
         # When sensitivity matrix is stored
@@ -488,13 +491,10 @@ class BaseSIPSimulation(BaseIPSimulation):
             d_\text{pred} = Pf(m)
 
         """
-        if f is None:
-            f = self.fields(m)
-        return self._pred
-        # return self.forward(m, f=f)
+        return super().dpred(m, f=f)
 
     def Jvec(self, m, v, f=None):
-        self.model = m
+        self._set_model(m)
 
         Jv = []
 
@@ -540,7 +540,7 @@ class BaseSIPSimulation(BaseIPSimulation):
             return np.hstack(Jv)
 
     def Jtvec(self, m, v, f=None):
-        self.model = m
+        self._set_model(m)
 
         # When sensitivity matrix is stored
         if self.storeJ:
-- 
2.43.0


From a5bc0a703bd856ab5bd3ce035245c339c11cded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:35 +0000
Subject: [PATCH 039/154] fix: keep the model as given and a copy of its values
 to notice changes

---
 simpeg/props.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index 02dbd89..f492b7d 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -428,10 +428,9 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
                 )
 
             # coerce to a numpy array
-            # keep a copy, such that changes of the caller's array are noticed
             value = validate_ndarray_with_shape(
                 "model", value, shape=("*",), dtype=float
-            ).copy()
+            )
 
             # Check the model is a good shape
             errors = []
@@ -467,7 +466,8 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
                 raise err
 
         # trigger model update function.
-        previous_value = getattr(self, "_model", None)
+        # (compare with a copy, such that changes of the caller's array are noticed)
+        previous_value = getattr(self, "_model_values", None)
         updated = False
         if previous_value is not value:
             if not (
@@ -483,6 +483,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
                 updated = True
 
         self._model = value
+        self._model_values = None if value is None else value.copy()
         # Most of the time this return value is completely ignored
         # However if you need to know if the model was updated in
         # and child class, you can always access the method:
@@ -492,6 +493,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
     @model.deleter
     def model(self):
         self._model = None
+        self._model_values = None
         # cached properties to delete
         for prop in self._delete_on_model_update:
             if hasattr(self, prop):
-- 
2.43.0


From e177cde1b6c40b908ec90d5a1fafce6592379dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 040/154] fix: inverse problem pairs misfits with the fields of
 other misfits

---
 simpeg/inverse_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/inverse_problem.py b/simpeg/inverse_problem.py
index ec24a15..4286216 100644
--- a/simpeg/inverse_problem.py
+++ b/simpeg/inverse_problem.py
@@ -286,7 +286,7 @@ class BaseInvProblem:
                     if hasattr(objfct, "simulation"):
                         f += [objfct.simulation.fields(m)]
                     else:
-                        f += []
+                        f += [None]
 
         if deleteWarmstart:
             self.warmstart = []
-- 
2.43.0


From 53086232ab25457f1041ff264405f6163e458dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 041/154] fix: data misfit Hessian with non-symmetric weights

---
 simpeg/data_misfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/data_misfit.py b/simpeg/data_misfit.py
index 740e803..c83d72b 100644
--- a/simpeg/data_misfit.py
+++ b/simpeg/data_misfit.py
@@ -339,5 +339,5 @@ class L2DataMisfit(BaseDataMisfit):
             f = self.simulation.fields(m)
 
         return 2 * self.simulation.Jtvec_approx(
-            m, self.W * (self.W * self.simulation.Jvec_approx(m, v, f=f)), f=f
+            m, self.W.T * (self.W * self.simulation.Jvec_approx(m, v, f=f)), f=f
         )
-- 
2.43.0


From 27f3705ce1c72d914c042dd89fb3ff9376095d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 042/154] fix: derivatives of sums and products of mappings

---
 simpeg/maps/_base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index 9369f1f..ae448fa 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -522,14 +522,13 @@ class ComboMap(IdentityMap):
             \frac{\partial \mathbf{f_1}}{\partial \mathbf{m}}
         """
 
-        if v is not None:
-            deriv = v
-        else:
-            deriv = 1
-
+        deriv = v
         mi = m
         for map_i in reversed(self.maps):
-            deriv = map_i.deriv(mi) * deriv
+            if deriv is None:
+                deriv = map_i.deriv(mi)
+            else:
+                deriv = map_i.deriv(mi) @ deriv
             mi = map_i * mi
         return deriv
 
@@ -848,15 +847,16 @@ class SumMap(ComboMap):
             m0 = m.copy()
 
             if v is not None:
-                deriv = v
+                deriv = map_i.deriv(m0, v=v)
             else:
-                deriv = sp.eye(self.nP)
+                deriv = map_i.deriv(m0) @ sp.eye(self.nP, format="csr")
+                if isinstance(deriv, np.ndarray):
+                    deriv = sp.csr_matrix(deriv)
 
-            deriv = map_i.deriv(m0, v=deriv)
             if ii == 0:
                 sumDeriv = deriv
             else:
-                sumDeriv += deriv
+                sumDeriv = sumDeriv + deriv
 
         return sumDeriv
 
-- 
2.43.0


From 4900b032774699eeea41dd001ea63cf329bb60dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 043/154] fix: spherical mapping derivative of a model changed
 in place

---
 simpeg/maps/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index ae448fa..158b292 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -926,12 +926,12 @@ class SphericalSystem(IdentityMap):
 
     def sphericalDeriv(self, model):
         if getattr(self, "model", None) is None:
-            self.model = model
+            self.model = model.copy()
 
-        if getattr(self, "_sphericalDeriv", None) is None or not all(
-            self.model == model
+        if getattr(self, "_sphericalDeriv", None) is None or not np.array_equal(
+            self.model, model
         ):
-            self.model = model
+            self.model = model.copy()
 
             # Do a double projection to make sure the parameters are bounded
             m_xyz = mat_utils.spherical2cartesian(model.reshape((-1, 3), order="F"))
-- 
2.43.0


From bcaeaf12588e8ce8752271d7b8961bfdce4f49e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 044/154] fix: derivative of susceptibility and permeability
 mappings of any size

---
 simpeg/maps/_property_maps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/maps/_property_maps.py b/simpeg/maps/_property_maps.py
index 44c3eb1..e9aa4f1 100644
--- a/simpeg/maps/_property_maps.py
+++ b/simpeg/maps/_property_maps.py
@@ -521,7 +521,7 @@ class ChiMap(IdentityMap):
         """
         if v is not None:
             return mu_0 * v
-        return mu_0 * sp.eye(self.nP)
+        return mu_0 * sp.eye(len(m))
 
     def inverse(self, m):
         r"""Apply the inverse mapping to an array.
@@ -593,7 +593,7 @@ class EffectiveSusceptibilityMap(IdentityMap):
     def deriv(self, m, v=None):
         if v is not None:
             return self.ambient_field_magnitude * v
-        return self.ambient_field_magnitude * sp.eye(self.nP)
+        return self.ambient_field_magnitude * sp.eye(len(m))
 
     def inverse(self, m):
         return m / self.ambient_field_magnitude
@@ -660,7 +660,7 @@ class MuRelative(IdentityMap):
         """
         if v is not None:
             return mu_0 * v
-        return mu_0 * sp.eye(self.nP)
+        return mu_0 * sp.eye(len(m))
 
     def inverse(self, m):
         r"""Apply the inverse mapping to an array.
-- 
2.43.0


From 65e4a69cb2a1a1d3fd42e563f5bf3d912ebf927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:33 +0000
Subject: [PATCH 045/154] fix: derivative of 3D polynomial mappings

---
 simpeg/maps/_parametric.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 4837b7c..566e104 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -639,36 +639,24 @@ class ParametricPolyMap(IdentityMap):
 
         # 3D
         elif self.mesh.dim == 3:
+            coeffs = c.reshape((self.order[0] + 1, self.order[1] + 1), order="F")
             X = self.mesh.cell_centers[self.active_cells, 0]
             Y = self.mesh.cell_centers[self.active_cells, 1]
             Z = self.mesh.cell_centers[self.active_cells, 2]
 
             if self.normal == "x":
-                f = (
-                    polynomial.polyval2d(
-                        Y, Z, c.reshape((self.order[0] + 1, self.order[1] + 1))
-                    )
-                    - X
-                )
+                f = polynomial.polyval2d(Y, Z, coeffs) - X
                 V = polynomial.polyvander2d(Y, Z, self.order)
             elif self.normal == "y":
-                f = (
-                    polynomial.polyval2d(
-                        X, Z, c.reshape((self.order[0] + 1, self.order[1] + 1))
-                    )
-                    - Y
-                )
+                f = polynomial.polyval2d(X, Z, coeffs) - Y
                 V = polynomial.polyvander2d(X, Z, self.order)
             elif self.normal == "z":
-                f = (
-                    polynomial.polyval2d(
-                        X, Y, c.reshape((self.order[0] + 1, self.order[1] + 1))
-                    )
-                    - Z
-                )
+                f = polynomial.polyval2d(X, Y, coeffs) - Z
                 V = polynomial.polyvander2d(X, Y, self.order)
             else:
                 raise (Exception("Input for normal = X or Y or Z"))
+            # columns in the order of the model parameters
+            V = V[:, np.arange(c.size).reshape(coeffs.shape).ravel(order="F")]
 
         if self.logSigma:
             g1 = -(np.arctan(alpha * f) / np.pi + 0.5) * sig1 + sig1
-- 
2.43.0


From 98580f4b4132cb540b451acd8ea341f0b187d516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:36 +0000
Subject: [PATCH 046/154] fix: derivative of spline mappings (stale or missing
 splines, x normal, top spline)

---
 simpeg/maps/_parametric.py | 106 ++++++++-----------------------------
 1 file changed, 21 insertions(+), 85 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 566e104..a6cb1b1 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -934,15 +934,27 @@ class ParametricSplineMap(IdentityMap):
         sig1, sig2, c = m[0], m[1], m[2:]
         if self.logSigma:
             sig1, sig2 = np.exp(sig1), np.exp(sig2)
+
+        # the interpolating splines are linear in the values at the points
+        def spline_basis(x):
+            return np.column_stack(
+                [
+                    UnivariateSpline(self.pts, e_i, k=self.order, s=0)(x)
+                    for e_i in np.eye(self.npts)
+                ]
+            )
+
         # 2D
         if self.mesh.dim == 2:
             X = self.mesh.cell_centers[:, 0]
             Y = self.mesh.cell_centers[:, 1]
 
             if self.normal == "x":
-                f = self.spl(Y) - X
+                dflines = spline_basis(Y)
+                f = dflines @ c - X
             elif self.normal == "y":
-                f = self.spl(X) - Y
+                dflines = spline_basis(X)
+                f = dflines @ c - Y
             else:
                 raise (Exception("Input for normal = X or Y or Z"))
         # 3D
@@ -954,14 +966,16 @@ class ParametricSplineMap(IdentityMap):
             if self.normal == "x":
                 zb = self.ptsv[0]
                 zt = self.ptsv[1]
-                flines = (self.spl["splt"](Y) - self.spl["splb"](Y)) * (Z - zb) / (
-                    zt - zb
-                ) + self.spl["splb"](Y)
-                f = flines - X
+                top = ((Z - zb) / (zt - zb))[:, None]
+                basis = spline_basis(Y)
+                dflines = np.hstack([(1 - top) * basis, top * basis])
+                f = dflines @ c - X
             # elif self.normal =='Y':
             # elif self.normal =='Z':
             else:
                 raise (Exception("Not Implemented for Y and Z, your turn :)"))
+        else:
+            raise (Exception("Only supports 2D and 3D"))
 
         if self.logSigma:
             g1 = -(np.arctan(alpha * f) / np.pi + 0.5) * sig1 + sig1
@@ -970,85 +984,7 @@ class ParametricSplineMap(IdentityMap):
             g1 = -(np.arctan(alpha * f) / np.pi + 0.5) + 1.0
             g2 = np.arctan(alpha * f) / np.pi + 0.5
 
-        if self.mesh.dim == 2:
-            g3 = np.zeros((self.mesh.nC, self.npts))
-            if self.normal == "y":
-                # Here we use perturbation to compute sensitivity
-                # TODO: bit more generalization of this ...
-                # Modfications for X and Z directions ...
-                for i in range(np.size(self.pts)):
-                    ctemp = c[i]
-                    ind = np.argmin(abs(self.mesh.cell_centers_y - ctemp))
-                    ca = c.copy()
-                    cb = c.copy()
-                    dy = self.mesh.h[1][ind] * 1.5
-                    ca[i] = ctemp + dy
-                    cb[i] = ctemp - dy
-                    spla = UnivariateSpline(self.pts, ca, k=self.order, s=0)
-                    splb = UnivariateSpline(self.pts, cb, k=self.order, s=0)
-                    fderiv = (spla(X) - splb(X)) / (2 * dy)
-                    g3[:, i] = (
-                        sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi)
-                        * fderiv
-                    )
-
-        elif self.mesh.dim == 3:
-            g3 = np.zeros((self.mesh.nC, self.npts * 2))
-            if self.normal == "x":
-                # Here we use perturbation to compute sensitivity
-                for i in range(self.npts * 2):
-                    ctemp = c[i]
-                    ind = np.argmin(abs(self.mesh.cell_centers_y - ctemp))
-                    ca = c.copy()
-                    cb = c.copy()
-                    dy = self.mesh.h[1][ind] * 1.5
-                    ca[i] = ctemp + dy
-                    cb[i] = ctemp - dy
-
-                    # treat bottom boundary
-                    if i < self.npts:
-                        splba = UnivariateSpline(
-                            self.pts, ca[: self.npts], k=self.order, s=0
-                        )
-                        splbb = UnivariateSpline(
-                            self.pts, cb[: self.npts], k=self.order, s=0
-                        )
-                        flinesa = (
-                            (self.spl["splt"](Y) - splba(Y)) * (Z - zb) / (zt - zb)
-                            + splba(Y)
-                            - X
-                        )
-                        flinesb = (
-                            (self.spl["splt"](Y) - splbb(Y)) * (Z - zb) / (zt - zb)
-                            + splbb(Y)
-                            - X
-                        )
-
-                    # treat top boundary
-                    else:
-                        splta = UnivariateSpline(
-                            self.pts, ca[self.npts :], k=self.order, s=0
-                        )
-                        spltb = UnivariateSpline(
-                            self.pts, ca[self.npts :], k=self.order, s=0
-                        )
-                        flinesa = (
-                            (self.spl["splt"](Y) - splta(Y)) * (Z - zb) / (zt - zb)
-                            + splta(Y)
-                            - X
-                        )
-                        flinesb = (
-                            (self.spl["splt"](Y) - spltb(Y)) * (Z - zb) / (zt - zb)
-                            + spltb(Y)
-                            - X
-                        )
-                    fderiv = (flinesa - flinesb) / (2 * dy)
-                    g3[:, i] = (
-                        sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi)
-                        * fderiv
-                    )
-        else:
-            raise (Exception("Not Implemented for Y and Z, your turn :)"))
+        g3 = sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi) * dflines
 
         if v is not None:
             return sp.csr_matrix(np.c_[g1, g2, g3]) * v
-- 
2.43.0


From 88fdf39f3469a07a45ec55e9b85d7430e588b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 047/154] fix: mappings keep matrices of earlier active cells,
 units or meshes; 1D Mesh2Mesh with active cells

---
 simpeg/maps/_injection.py  | 4 +++-
 simpeg/maps/_parametric.py | 1 +
 simpeg/maps/_surjection.py | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/simpeg/maps/_injection.py b/simpeg/maps/_injection.py
index 68c02c2..157cadd 100644
--- a/simpeg/maps/_injection.py
+++ b/simpeg/maps/_injection.py
@@ -67,6 +67,7 @@ class Mesh2Mesh(IdentityMap):
         self._mesh2 = validate_type(
             "mesh2", value, discretize.base.BaseMesh, cast=False
         )
+        self._P = None
 
     @property
     def active_cells(self):
@@ -83,6 +84,7 @@ class Mesh2Mesh(IdentityMap):
         if value is not None:
             value = validate_active_indices("active_cells", value, self.mesh.n_cells)
         self._active_cells = value
+        self._P = None
 
     indActive = deprecate_property(
         active_cells,
@@ -97,7 +99,7 @@ class Mesh2Mesh(IdentityMap):
         if getattr(self, "_P", None) is None:
             self._P = self.mesh2.get_interpolation_matrix(
                 (
-                    self.mesh.cell_centers[self.active_cells, :]
+                    self.mesh.cell_centers[self.active_cells]
                     if self.active_cells is not None
                     else self.mesh.cell_centers
                 ),
diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index a6cb1b1..7d2019a 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -1073,6 +1073,7 @@ class BaseParametric(IdentityMap):
         if value is not None:
             value = validate_active_indices("active_cells", value, self.mesh.n_cells)
         self._active_cells = value
+        self._x = self._y = self._z = None
 
     indActive = deprecate_property(
         active_cells,
diff --git a/simpeg/maps/_surjection.py b/simpeg/maps/_surjection.py
index edcfa1f..10698ca 100644
--- a/simpeg/maps/_surjection.py
+++ b/simpeg/maps/_surjection.py
@@ -478,6 +478,7 @@ class SurjectUnits(IdentityMap):
                     raise ValueError("all indicies must have the same shape.")
                 last_shape = values[i].shape
         self._indices = values
+        self._P = None
 
     @property
     def P(self):
-- 
2.43.0


From 3eb6274981db2c0acfb647312d7764b3c4d2f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:30 +0000
Subject: [PATCH 048/154] fix: numpy numbers times an objective function
 combination

---
 simpeg/objective_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/objective_function.py b/simpeg/objective_function.py
index 9188168..b65a314 100644
--- a/simpeg/objective_function.py
+++ b/simpeg/objective_function.py
@@ -270,7 +270,8 @@ class BaseObjectiveFunction(BaseSimPEG):
         )
         return deriv & deriv2
 
-    __numpy_ufunc__ = True
+    # numpy scalars leave the operators to this class
+    __array_ufunc__ = None
 
     def __add__(self, other):
         if isinstance(other, Zero):
-- 
2.43.0


From 45105de8c153bd374bc17cd5a7747719878034e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:08 +0000
Subject: [PATCH 049/154] fix: weights per component of vector amplitude
 regularizations

---
 simpeg/regularization/vector.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/simpeg/regularization/vector.py b/simpeg/regularization/vector.py
index 579e57e..f01c03a 100644
--- a/simpeg/regularization/vector.py
+++ b/simpeg/regularization/vector.py
@@ -670,7 +670,7 @@ class AmplitudeSmallness(SparseSmallness, BaseAmplitude):
             for value in self._weights.values():
                 if value.shape == (nC,):
                     weights *= value
-                elif value.shape == (self.n_comp * nC,):
+                elif value.size == self.n_comp * nC:
                     weights *= np.linalg.norm(
                         value.reshape((nC, self.n_comp), order="F"), axis=1
                     )
@@ -968,14 +968,12 @@ class AmplitudeSmoothnessFirstOrder(SparseSmoothness, BaseAmplitude):
             nF = average_cell_2_face.shape[0]
             weights = 1.0
             for values in self._weights.values():
-                if values.shape[0] == nC:
-                    values = average_cell_2_face * values
-                elif not values.shape == (nF,):
+                if values.shape not in ((nC,), (nF,)):
                     values = np.linalg.norm(
                         values.reshape((-1, self.n_comp), order="F"), axis=1
                     )
-                    if values.size == nC:
-                        values = average_cell_2_face * values
+                if values.size == nC:
+                    values = average_cell_2_face * values
 
                 weights *= values
 
-- 
2.43.0


From fad38a00c55c003a76300d907bc04b9030eb9c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:08 +0000
Subject: [PATCH 050/154] fix: Hessian of petrophysical smallness with
 nonlinear mappings

---
 simpeg/regularization/pgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 0193647..5edf271 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -841,7 +841,7 @@ class PGIsmallness(Smallness):
 
                 Hr = Hr.dot(self.W)
 
-                return 2 * (mD.T * mD) * (self.W * (Hr))
+                return 2 * mD.T * (self.W * Hr) * mD
 
         else:
             if self.non_linear_relationships:
@@ -919,7 +919,7 @@ class PGIsmallness(Smallness):
                 for j in range(len(self.wiresmap.maps)):
                     Hc = sp.hstack([Hc, sdiag(hlist[i][j])])
                 Hr = sp.vstack([Hr, Hc])
-            Hr = 2 * (mD.T * mD) * Hr
+            Hr = 2 * mD.T * Hr * mD
 
             if v is not None:
                 return Hr.dot(v)
-- 
2.43.0


From 72c952d5627e9b54b26e37d6b3b8e54216670cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:33 +0000
Subject: [PATCH 051/154] fix: petrophysical Hessian of an earlier mixture or
 reference model

---
 simpeg/regularization/pgi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 5edf271..4abb022 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -275,6 +275,12 @@ class PGIsmallness(Smallness):
     def gmm(self, gm):
         if gm is not None:
             self._gmm = copy.deepcopy(gm)
+            self._r_second_deriv = None
+
+    @Smallness.reference_model.setter
+    def reference_model(self, values: np.ndarray | float):
+        Smallness.reference_model.fset(self, values)
+        self._r_second_deriv = None
 
     @property
     def shape(self):
@@ -746,7 +752,7 @@ class PGIsmallness(Smallness):
             dmmodel = np.c_[[a * b for a, b in zip(self.maplist, modellist)]].T
             mD = [a.deriv(b) for a, b in zip(self.maplist, modellist)]
             mD = sp.block_diag(mD)
-            if self._r_second_deriv is None:
+            if self._r_second_deriv is None or self.non_linear_relationships:
                 if self.gmm.covariance_type == "tied":
                     if self.non_linear_relationships:
                         r = np.r_[
-- 
2.43.0


From a0e67d511738f59130afc4d9e069c60b5abc5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:53 +0000
Subject: [PATCH 052/154] fix: smoothness regularizations keep the gradient of
 earlier active cells

---
 simpeg/regularization/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 54d939c..68096dd 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -106,6 +106,7 @@ class BaseRegularization(BaseObjectiveFunction):
             volume_term = "volume" in self._weights
             self._weights = {}
             self._W = None
+            self._cell_gradient = None
             if volume_term:
                 self.set_weights(volume=self.regularization_mesh.vol)
 
-- 
2.43.0


From 33f9e9164c141ec64d26296cc2012b3ff83e6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:53 +0000
Subject: [PATCH 053/154] fix: get_receiver_indices of sources always fails

---
 simpeg/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/survey.py b/simpeg/survey.py
index e471ab1..1b8b513 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -340,7 +340,7 @@ class BaseSrc:
 
     @property
     def _rxOrder(self):
-        if getattr(self.__rxOrder, None) is None:
+        if self.__rxOrder is None:
             self.__rxOrder = {}
             [
                 self.__rxOrder.setdefault(rx.uid, ii)
-- 
2.43.0


From e48f8e97ac422b45962d5206939b7bd174bbe4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:54 +0000
Subject: [PATCH 054/154] fix: surveys keep the data counts and times of
 earlier sources

---
 simpeg/survey.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simpeg/survey.py b/simpeg/survey.py
index 1b8b513..a0254ed 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -452,6 +452,7 @@ class BaseSurvey:
         super().__setattr__(name, item)
         if name == "source_list":
             self.__sourceOrder = None
+            self._unique_times = None
 
     @source_list.setter
     def source_list(self, new_list):
@@ -519,9 +520,9 @@ class BaseSurvey:
         (n_src) numpy.ndarray of int
             Number of associate data for each source
         """
-        if getattr(self, "_vnD", None) is None:
-            self._vnD = np.array([src.nD for src in self.source_list])
-        return self._vnD
+        if getattr(self, "_vnD", None) is not None:
+            return self._vnD
+        return np.array([src.nD for src in self.source_list])
 
     @property
     def nSrc(self):
-- 
2.43.0


From f434605269e784d8043c5e202dca52b831d1e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:11 +0000
Subject: [PATCH 055/154] fix: frequency domain surveys keep the frequencies of
 earlier sources

---
 .../frequency_domain/survey.py                | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/survey.py b/simpeg/electromagnetics/frequency_domain/survey.py
index c7c0a1d..e23c458 100644
--- a/simpeg/electromagnetics/frequency_domain/survey.py
+++ b/simpeg/electromagnetics/frequency_domain/survey.py
@@ -15,15 +15,6 @@ class Survey(BaseSurvey):
     def __init__(self, source_list, **kwargs):
         super(Survey, self).__init__(source_list, **kwargs)
 
-        _frequency_dict = {}
-        for src in self.source_list:
-            if src.frequency not in _frequency_dict:
-                _frequency_dict[src.frequency] = []
-            _frequency_dict[src.frequency] += [src]
-
-        self._frequency_dict = _frequency_dict
-        self._frequencies = sorted([f for f in self._frequency_dict])
-
     @property
     def source_list(self):
         """List of FDEM sources associated with the survey
@@ -41,6 +32,16 @@ class Survey(BaseSurvey):
             "source_list", new_list, BaseFDEMSrc, ensure_unique=True
         )
 
+        _frequency_dict = {}
+        for src in self._source_list:
+            if src.frequency not in _frequency_dict:
+                _frequency_dict[src.frequency] = []
+            _frequency_dict[src.frequency] += [src]
+
+        self._frequency_dict = _frequency_dict
+        self._frequencies = sorted([f for f in self._frequency_dict])
+        self._num_sources_by_frequency = None
+
     @property
     def frequencies(self):
         """Frequencies in the survey
-- 
2.43.0


From 5afe5bfa1c8905af5496bf8d7b70039e7e7532c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:11 +0000
Subject: [PATCH 056/154] fix: data count of VRM surveys with given active
 times

---
 .../electromagnetics/viscous_remanent_magnetization/survey.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py b/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py
index 0f65d97..dc7c780 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py
@@ -26,7 +26,7 @@ class SurveyVRM(BaseSurvey):
         super(SurveyVRM, self).__init__(source_list=source_list, **kwargs)
 
         self._nD_all = self.vnD.sum()
-        self._nD = self._nD_all
+        self._nD = None
 
         if t_active is None:
             t_active = np.ones(self._nD_all, dtype=bool)
-- 
2.43.0


From 2955b7e59e4772c93980d7bc4fd06e4b288a598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:42 +0000
Subject: [PATCH 057/154] fix: 1D simulations fail for a narrow range of
 offsets or times

---
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 2 +-
 simpeg/electromagnetics/time_domain/simulation_1d.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index 7f3192f..ec5fa29 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -255,7 +255,7 @@ class Simulation1DLayers(BaseSimulation):
         for i in range(n_r):
             e = np.zeros(n_r)
             e[i] = 1.0
-            sp = iuSpline(np.log(r_spline_points[::-1]), e, k=5)
+            sp = iuSpline(np.log(r_spline_points[::-1]), e, k=min(5, n_r - 1))
             splines.append(sp)
         # As will go from wavenumber to space domain
         As = []
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index ba63951..c811801 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -149,7 +149,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
         for i in range(n_t):
             e = np.zeros(n_t)
             e[i] = 1.0
-            sp = iuSpline(np.log(t_spline_points[::-1]), e, k=5)
+            sp = iuSpline(np.log(t_spline_points[::-1]), e, k=min(5, n_t - 1))
             splines.append(sp)
         # As will go from frequency to time domain
         As = []
-- 
2.43.0


From c1ac020b1b6ae9732e014001e3ca1196e2b257bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:36 +0000
Subject: [PATCH 058/154] fix: gravity receiver locations of surveys with
 several receivers

---
 simpeg/potential_fields/gravity/survey.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/potential_fields/gravity/survey.py b/simpeg/potential_fields/gravity/survey.py
index 7a9cb84..b4e47e3 100644
--- a/simpeg/potential_fields/gravity/survey.py
+++ b/simpeg/potential_fields/gravity/survey.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from ...survey import BaseSurvey
 from ...utils.code_utils import validate_list_of_types
 from .sources import SourceField
@@ -82,7 +84,7 @@ class Survey(BaseSurvey):
         (n_loc, 3) numpy.ndarray
             Receiver locations.
         """
-        return self.source_field.receiver_list[0].locations
+        return np.concatenate([rx.locations for rx in self.source_field.receiver_list])
 
     @property
     def nD(self):
-- 
2.43.0


From 491a1bffaf4c45a2a4279c836e9bba77587a5d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:36 +0000
Subject: [PATCH 059/154] fix: time surveys keep the times of earlier receivers

---
 simpeg/survey.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/simpeg/survey.py b/simpeg/survey.py
index a0254ed..760b0aa 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -452,7 +452,6 @@ class BaseSurvey:
         super().__setattr__(name, item)
         if name == "source_list":
             self.__sourceOrder = None
-            self._unique_times = None
 
     @source_list.setter
     def source_list(self, new_list):
@@ -639,10 +638,8 @@ class BaseTimeSurvey(BaseSurvey):
         numpy.ndarray
             The unique time channels for all survey receivers.
         """
-        if getattr(self, "_unique_times", None) is None:
-            rx_times = []
-            for source in self.source_list:
-                for receiver in source.receiver_list:
-                    rx_times.append(receiver.times)
-            self._unique_times = np.unique(np.hstack(rx_times))
-        return self._unique_times
+        rx_times = []
+        for source in self.source_list:
+            for receiver in source.receiver_list:
+                rx_times.append(receiver.times)
+        return np.unique(np.hstack(rx_times))
-- 
2.43.0


From 8b9696d3b62a4ae0accd298edb3f38ec3a3e226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 060/154] fix: 1D natural source fields of several
 primary/secondary sources

---
 .../electromagnetics/natural_source/fields.py | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/fields.py b/simpeg/electromagnetics/natural_source/fields.py
index 3ba8507..a412f04 100644
--- a/simpeg/electromagnetics/natural_source/fields.py
+++ b/simpeg/electromagnetics/natural_source/fields.py
@@ -213,9 +213,12 @@ class Fields1DPrimarySecondary(FieldsFDEM):
         :return: primary electric field as defined by the sources
         """
         ePrimary = np.zeros_like(eSolution)
-        for i, src in enumerate(source_list):
+        i = 0
+        for src in source_list:
+            ii = i + src._fields_per_source
             ep = src.ePrimary(self.simulation)
-            ePrimary[:, i] = ePrimary[:, i] + ep[:, -1]
+            ePrimary[:, i:ii] = ePrimary[:, i:ii] + ep[:, -1:]
+            i = ii
         return ePrimary
 
     def _eSecondary(self, eSolution, source_list):
@@ -261,9 +264,12 @@ class Fields1DPrimarySecondary(FieldsFDEM):
         bPrimary = np.zeros(
             [self.simulation.mesh.nE, eSolution.shape[1]], dtype=complex
         )
-        for i, src in enumerate(source_list):
+        i = 0
+        for src in source_list:
+            ii = i + src._fields_per_source
             bp = src.bPrimary(self.simulation)
-            bPrimary[:, i] = bPrimary[:, i] + bp[:, -1]
+            bPrimary[:, i:ii] = bPrimary[:, i:ii] + bp[:, -1:]
+            i = ii
         return bPrimary
 
     def _bSecondary(self, eSolution, source_list):
@@ -277,8 +283,11 @@ class Fields1DPrimarySecondary(FieldsFDEM):
         """
         C = self.mesh.nodal_gradient
         b = C * eSolution
-        for i, src in enumerate(source_list):
-            b[:, i] *= -1.0 / (1j * omega(src.frequency))
+        i = 0
+        for src in source_list:
+            ii = i + src._fields_per_source
+            b[:, i:ii] *= -1.0 / (1j * omega(src.frequency))
+            i = ii
         return b
 
     def _bDeriv_u(self, src, du_dm_v, adjoint=False):
-- 
2.43.0


From 3b1f7ed56dfdd1f6394d660214156f29bea477e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 061/154] fix: slices of sources with several fields per source

---
 simpeg/fields.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simpeg/fields.py b/simpeg/fields.py
index f78c994..c8455fe 100644
--- a/simpeg/fields.py
+++ b/simpeg/fields.py
@@ -244,6 +244,9 @@ class Fields:
     def _srcIndex(self, srcTestList):
         if type(srcTestList) is slice:
             ind = srcTestList
+            if self.survey._n_fields != self.survey.nSrc:
+                # several fields per source: the slice selects sources, not fields
+                ind = self.survey.get_source_indices(self.survey.source_list[ind])
         else:
             ind = self.survey.get_source_indices(srcTestList)
         return ind
-- 
2.43.0


From 9d9ab02ff6a7ffe57a3dc22781b2c1c64ee14c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:45 +0000
Subject: [PATCH 062/154] fix: columns read from XYZ files of DC and IP data

---
 .../io_utils/io_utils_electromagnetics.py      | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index e0306a1..6af00ee 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -115,7 +115,9 @@ def read_dcip_xyz(
         col_indices.append(file_headers.index(h))
 
     # Load specified columns of data
-    data_array = np.loadtxt(file_name, comments="!", skiprows=1, usecols=col_indices)
+    data_array = np.loadtxt(
+        file_name, comments="!", skiprows=1, usecols=col_indices, ndmin=2
+    )
     n_rows = np.shape(data_array)[0]
     num_location_columns = np.shape(data_array)[1] - non_location_columns
 
@@ -133,10 +135,10 @@ def read_dcip_xyz(
         n_cols = [6, 7]
     # 2D surface data
     else:
-        a_cols = [1]
-        b_cols = [2]
-        m_cols = [3]
-        n_cols = [4]
+        a_cols = [0]
+        b_cols = [1]
+        m_cols = [2]
+        n_cols = [3]
 
     # Extract electrode locations
     if is_surface_data:
@@ -170,19 +172,19 @@ def read_dcip_xyz(
 
     # Sort and organize all data columns
     if has_data:
-        data_object.dobs = data_array[out_indices, file_headers.index(data_header)]
+        data_object.dobs = data_array[out_indices, out_headers.index(data_header)]
 
     # Sort and organize all data columns
     if has_uncert:
         data_object.standard_deviation = data_array[
-            out_indices, file_headers.index(uncertainties_header)
+            out_indices, out_headers.index(uncertainties_header)
         ]
 
     # Sort and organize all data columns
     if has_dict:
         out_dict = {}
         for h in dict_headers:
-            out_dict[h] = data_array[out_indices, file_headers.index(h)]
+            out_dict[h] = data_array[out_indices, out_headers.index(h)]
         return data_object, out_dict
 
     else:
-- 
2.43.0


From f7958a95cc0954bc3f803c1c080bbacaaff331d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:21 +0000
Subject: [PATCH 063/154] fix: UBC DC/IP files with mixed poles and dipoles or
 large coordinates

---
 .../io_utils/io_utils_electromagnetics.py     | 90 ++++++++++++-------
 1 file changed, 57 insertions(+), 33 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index 6af00ee..e7099c2 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -1,3 +1,5 @@
+from itertools import groupby
+
 import numpy as np
 from discretize.utils import mkvc
 import warnings
@@ -191,6 +193,40 @@ def read_dcip_xyz(
         return data_object
 
 
+def _receivers_from_rows(rows, dim, data_type):
+    """Create receivers from electrode locations, in order.
+
+    Parameters
+    ----------
+    rows : list of numpy.ndarray
+        The M (pole) or M and N (dipole) electrode locations of each datum.
+    dim : int
+        The number of coordinates of an electrode.
+    data_type : str
+        Data type of the receivers.
+
+    Returns
+    -------
+    list of simpeg.electromagnetics.static.resistivity.receivers.BaseRx
+        One receiver for each run of consecutive pole or dipole data.
+    """
+    # Prevent circular import
+    from ...electromagnetics.static import resistivity as dc
+
+    receivers = []
+    for n_cols, group in groupby(rows, key=len):
+        locations = np.asarray(list(group))
+        if n_cols == dim:
+            receivers.append(dc.receivers.Pole(locations, data_type=data_type))
+        else:
+            receivers.append(
+                dc.receivers.Dipole(
+                    locations[:, :dim], locations[:, dim:], data_type=data_type
+                )
+            )
+    return receivers
+
+
 def read_dcip2d_ubc(file_name, data_type, format_type):
     """Read UBC-GIF DCIP2D formatted survey or data files.
 
@@ -268,16 +304,16 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
 
     # Flag for z value provided
     is_surface = False
-    is_pole_tx = False
-    is_pole_rx = False
 
     if format_type == "simple":
         # Load numeric data into an array
         if data_type == "volt":
-            data_array = np.loadtxt(file_name, comments="!", skiprows=start_index)
+            data_array = np.loadtxt(
+                file_name, comments="!", skiprows=start_index, ndmin=2
+            )
         else:
             data_array = np.loadtxt(
-                file_name, comments={"!", "IPTYPE"}, skiprows=start_index
+                file_name, comments={"!", "IPTYPE"}, skiprows=start_index, ndmin=2
             )
 
         n_rows = np.shape(data_array)[0]
@@ -334,11 +370,12 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
                 rx = []
                 temp = np.fromstring(obsfile[ii], dtype=float, sep=" ").T
                 count = int(temp[-1])
+                is_pole_tx = False
 
                 # Check if z value is provided, if False -> 9999
                 if len(temp) == 3:
                     # check if pole|dipole
-                    if np.allclose(temp[0], temp[1]):
+                    if temp[0] == temp[1]:
                         tx = np.r_[temp[0], 9999]
                         is_pole_tx = True
                     else:
@@ -347,7 +384,7 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
 
                 else:
                     # check if pole|dipole
-                    if np.allclose(temp[0:2], temp[2:4]):
+                    if np.array_equal(temp[0:2], temp[2:4]):
                         tx = np.r_[temp[0:2]]
                         is_pole_tx = True
                     else:
@@ -362,8 +399,7 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
                 data_column_index = 2
 
                 # Check if Pole Receiver
-                if np.allclose(temp[0], temp[1]):
-                    is_pole_rx = True
+                if temp[0] == temp[1]:
                     rx.append(np.r_[temp[0], 9999])
                 else:
                     rx.append(np.r_[temp[0], 9999, temp[1], 9999])
@@ -372,8 +408,7 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
                 data_column_index = 4  # Since dpred for dc has app_res
 
                 # Check if Pole Receiver
-                if np.allclose(temp[0:2], temp[2:4]):
-                    is_pole_rx = True
+                if np.array_equal(temp[0:2], temp[2:4]):
                     rx.append(temp[:2])
                 else:
                     rx.append(temp[:4])
@@ -391,15 +426,11 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
 
             # Reach the end of transmitter block
             if count == 0:
-                rx = np.asarray(rx)
-                if is_pole_rx:
-                    Rx = dc.receivers.Pole(rx[:, :2], data_type=data_type)
-                else:
-                    Rx = dc.receivers.Dipole(rx[:, :2], rx[:, 2:], data_type=data_type)
+                Rx = _receivers_from_rows(rx, 2, data_type)
                 if is_pole_tx:
-                    source_list.append(dc.sources.Pole([Rx], tx[:2]))
+                    source_list.append(dc.sources.Pole(Rx, tx[:2]))
                 else:
-                    source_list.append(dc.sources.Dipole([Rx], tx[:2], tx[2:]))
+                    source_list.append(dc.sources.Dipole(Rx, tx[:2], tx[2:]))
 
         survey = dc.survey.Survey(source_list)
         data_out = Data(survey=survey)
@@ -471,8 +502,6 @@ def read_dcip3d_ubc(file_name, data_type):
 
     # Flag for z value provided
     is_surface = False
-    is_pole_tx = False
-    is_pole_rx = False
 
     # IP data for dcip3d has a line with a flag we can remove.
     if obsfile[0][0:6] == "IPTYPE":
@@ -494,11 +523,12 @@ def read_dcip3d_ubc(file_name, data_type):
             rx = []
             temp = np.fromstring(obsfile[ii], dtype=float, sep=" ").T
             count = int(temp[-1])
+            is_pole_tx = False
 
             # Check if z value is provided, if False -> 9999
             if len(temp) == 5:
                 # check if pole|dipole
-                if np.allclose(temp[0:2], temp[2:4]):
+                if np.array_equal(temp[0:2], temp[2:4]):
                     tx = np.r_[temp[0:2], 9999]
                     is_pole_tx = True
                 else:
@@ -507,7 +537,7 @@ def read_dcip3d_ubc(file_name, data_type):
 
             else:
                 # check if pole|dipole
-                if np.allclose(temp[0:3], temp[3:6]):
+                if np.array_equal(temp[0:3], temp[3:6]):
                     tx = np.r_[temp[0:3]]
                     is_pole_tx = True
                 else:
@@ -522,9 +552,8 @@ def read_dcip3d_ubc(file_name, data_type):
             data_column_index = 4  # Since dpred for dc has app_res
 
             # Check if Pole Receiver
-            if np.allclose(temp[0:2], temp[2:4]):
-                is_pole_rx = True
-                rx.append(temp[:2])
+            if np.array_equal(temp[0:2], temp[2:4]):
+                rx.append(np.r_[temp[0:2], 9999])
             else:
                 rx.append(np.r_[temp[0:2], 9999, temp[2:4], 9999])
 
@@ -532,8 +561,7 @@ def read_dcip3d_ubc(file_name, data_type):
             data_column_index = 6  # Since dpred for dc has app_res
 
             # Check if Pole Receiver
-            if np.allclose(temp[0:3], temp[3:6]):
-                is_pole_rx = True
+            if np.array_equal(temp[0:3], temp[3:6]):
                 rx.append(temp[:3])
             else:
                 rx.append(temp[:6])
@@ -551,15 +579,11 @@ def read_dcip3d_ubc(file_name, data_type):
 
         # Reach the end of transmitter block
         if count == 0:
-            rx = np.asarray(rx)
-            if is_pole_rx:
-                Rx = dc.receivers.Pole(rx[:, :3], data_type=data_type)
-            else:
-                Rx = dc.receivers.Dipole(rx[:, :3], rx[:, 3:], data_type=data_type)
+            Rx = _receivers_from_rows(rx, 3, data_type)
             if is_pole_tx:
-                source_list.append(dc.sources.Pole([Rx], tx[:3]))
+                source_list.append(dc.sources.Pole(Rx, tx[:3]))
             else:
-                source_list.append(dc.sources.Dipole([Rx], tx[:3], tx[3:]))
+                source_list.append(dc.sources.Dipole(Rx, tx[:3], tx[3:]))
 
     survey = dc.survey.Survey(source_list)
     data_out = Data(survey=survey)
-- 
2.43.0


From dbfdb10ff84773eaceda906ea7cb9871a0feea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 064/154] fix: writing UBC files changes the data object or its
 receivers

---
 simpeg/utils/io_utils/io_utils_electromagnetics.py | 8 ++++++--
 simpeg/utils/io_utils/io_utils_pf.py               | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index e7099c2..349d348 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -888,8 +888,12 @@ def write_dcip3d_ubc(
     # Predicted DC data will automatically contain apparent resistivity column.
     # Here we compute the apparent resistivities and treat it like an uncertainties column.
     if (file_type == "dpred") & (data_type == "volt"):
-        data_object.standard_deviation = apparent_resistivity_from_voltage(
-            data_object.survey, data_object.dobs
+        data_object = Data(
+            data_object.survey,
+            dobs=data_object.dobs,
+            standard_deviation=apparent_resistivity_from_voltage(
+                data_object.survey, data_object.dobs
+            ),
         )
         file_type = "dobs"
 
diff --git a/simpeg/utils/io_utils/io_utils_pf.py b/simpeg/utils/io_utils/io_utils_pf.py
index ff689c1..fa35495 100644
--- a/simpeg/utils/io_utils/io_utils_pf.py
+++ b/simpeg/utils/io_utils/io_utils_pf.py
@@ -340,7 +340,7 @@ def write_gg3d_ubc(filename, data_object):
         raise NotImplementedError(
             "Writing of ubc format only supported for a single receiver."
         )
-    components = src.receiver_list[0].components
+    components = list(src.receiver_list[0].components)
     n_comp = len(components)
     factor = np.ones(n_comp)
 
-- 
2.43.0


From f0841c98af8e6cebd13a66433934d6ea35a820c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:08 +0000
Subject: [PATCH 065/154] fix: dipoles taken for poles and repeated data when
 building surveys from electrode locations

---
 .../static/utils/static_utils.py              | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index 5312c58..72080bc 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -441,6 +441,7 @@ def convert_survey_3d_to_2d_lines(
         ]
 
         # For each source in the line
+        is_assigned = np.zeros(len(lineID_index), dtype=bool)
         for ind in ab_index:
             # Get source location
             src_loc_a = mkvc(a_locs_s[ind, :])
@@ -448,15 +449,21 @@ def convert_survey_3d_to_2d_lines(
 
             # Get receiver locations
             rx_index = np.where(
-                np.isclose(a_locs_s[:, 0], src_loc_a[0], atol=1e-3)
-                & np.isclose(b_locs_s[:, 0], src_loc_b[0], atol=1e-3)
+                np.all(np.isclose(a_locs_s, src_loc_a, rtol=0, atol=1e-3), axis=1)
+                & np.all(np.isclose(b_locs_s, src_loc_b, rtol=0, atol=1e-3), axis=1)
+                & ~is_assigned
             )[0]
+            if len(rx_index) == 0:
+                continue
+            is_assigned[rx_index] = True
             rx_loc_m = m_locs_s[rx_index, :]
             rx_loc_n = n_locs_s[rx_index, :]
 
             # Extract pole and dipole receivers
             k_ii = kID[rx_index]
-            is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, atol=1e-3), axis=1)
+            is_pole_rx = np.all(
+                np.isclose(rx_loc_m, rx_loc_n, rtol=0, atol=1e-3), axis=1
+            )
             rx_list = []
 
             if any(is_pole_rx):
@@ -476,7 +483,7 @@ def convert_survey_3d_to_2d_lines(
                 out_indices.append(k_ii[~is_pole_rx])
 
             # Define Pole or Dipole Sources
-            if np.all(np.isclose(src_loc_a, src_loc_b, atol=1e-3)):
+            if np.all(np.isclose(src_loc_a, src_loc_b, rtol=0, atol=1e-3)):
                 source_list.append(dc.sources.Pole(rx_list, src_loc_a))
             else:
                 source_list.append(dc.sources.Dipole(rx_list, src_loc_a, src_loc_b))
@@ -1026,6 +1033,7 @@ def generate_survey_from_abmn_locations(
 
     # Loop over all unique source locations
     source_list = []
+    is_assigned = np.zeros(n_rows, dtype=bool)
     for ind in ab_index:
         # Get source location
         src_loc_a = mkvc(locations_a[ind, :])
@@ -1036,15 +1044,19 @@ def generate_survey_from_abmn_locations(
             (
                 (np.sqrt(np.sum((locations_a - src_loc_a) ** 2, axis=1)) < 1e-3)
                 & (np.sqrt(np.sum((locations_b - src_loc_b) ** 2, axis=1)) < 1e-3)
+                & ~is_assigned
             )
         )[0]
+        if len(rx_index) == 0:
+            continue
+        is_assigned[rx_index] = True
 
         rx_loc_m = locations_m[rx_index, :]
         rx_loc_n = locations_n[rx_index, :]
 
         # Extract pole and dipole receivers
         k_ii = k[rx_index]
-        is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, atol=1e-3), axis=1)
+        is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, rtol=0, atol=1e-3), axis=1)
         rx_list = []
 
         if any(is_pole_rx):
@@ -1062,7 +1074,7 @@ def generate_survey_from_abmn_locations(
             out_indices.append(k_ii[~is_pole_rx])
 
         # Define Pole or Dipole Sources
-        if np.all(np.isclose(src_loc_a, src_loc_b, atol=1e-3)):
+        if np.all(np.isclose(src_loc_a, src_loc_b, rtol=0, atol=1e-3)):
             source_list.append(dc.sources.Pole(rx_list, src_loc_a))
         else:
             source_list.append(dc.sources.Dipole(rx_list, src_loc_a, src_loc_b))
-- 
2.43.0


From 7cf3f854721073ed8003bfcabab657f96f5a84f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 066/154] fix: 2D lines with a single source position

---
 simpeg/electromagnetics/static/utils/static_utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index 72080bc..0988ff5 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -417,6 +417,16 @@ def convert_survey_3d_to_2d_lines(
         kID = k[lineID_index]  # data indices part of this line
         r0 = mkvc(ab_locs_all[start_index[0], 0:2])  # (x0, y0) for the survey line
         rN = mkvc(ab_locs_all[start_index[-1], 0:2])  # (x, y) for last electrode
+        if np.all(r0 == rN):
+            # Single source position, use the electrode furthest from it
+            electrodes = np.vstack(
+                [
+                    ab_locs_all[lineID_index, 3:5],
+                    mn_locs_all[lineID_index, 0:2],
+                    mn_locs_all[lineID_index, 3:5],
+                ]
+            )
+            rN = electrodes[np.argmax(np.sum((electrodes - r0) ** 2, axis=1))]
         uvec = (rN - r0) / np.sqrt(
             np.sum((rN - r0) ** 2)
         )  # unit vector for line orientation
-- 
2.43.0


From c444fb1c8b1f4c496d0c6585580fa23fc3b4a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:26 +0000
Subject: [PATCH 067/154] fix: conversion of DC to spectral IP surveys

---
 .../static/spectral_induced_polarization/survey.py    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/survey.py b/simpeg/electromagnetics/static/spectral_induced_polarization/survey.py
index 0fdc0c5..89bef9d 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/survey.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/survey.py
@@ -128,9 +128,16 @@ def from_dc_to_sip_survey(survey_dc, times):
             receiver_list_sip.append(rx_sip)
 
         if isinstance(src, dc.sources.Pole):
-            src_sip = sources.Pole(receiver_list_sip, src.loc)
+            src_sip = sources.Pole(
+                receiver_list_sip, src.location[0], current=src.current[0]
+            )
         elif isinstance(src, dc.sources.Dipole):
-            src_sip = sources.Dipole(receiver_list_sip, src.loc[0], src.loc[1])
+            src_sip = sources.Dipole(
+                receiver_list_sip,
+                src.location[0],
+                src.location[1],
+                current=src.current[0],
+            )
         else:
             print(src)
             raise NotImplementedError()
-- 
2.43.0


From 150e41e05550e2f9cd5a20f94e68320d9a5fce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:47 +0000
Subject: [PATCH 068/154] fix: generating gradient DC surveys

---
 simpeg/electromagnetics/static/utils/static_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index 0988ff5..cb0d5dc 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -1259,6 +1259,7 @@ def generate_dcip_survey(endl, survey_type, a, b, n, dim=3, **kwargs):
 
         npoles = int(nstn * len(lind))
 
+        ztop = endl[0, -1]
         rx = np.zeros([npoles, 6])
         for ii in range(len(lind)):
             # Move station location to current survey line This is a
-- 
2.43.0


From ddeb6fefd96a40a759a79c3bdbf86a0c2e99c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:17 +0000
Subject: [PATCH 069/154] fix: line numbers of surveys with pole sources

---
 simpeg/electromagnetics/static/utils/static_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index cb0d5dc..9ded6a3 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -1464,7 +1464,7 @@ def xy_2_lineID(dc_survey):
     for ii in range(nstn):
         if ii == 0:
             A = dc_survey.source_list[ii].location[0]
-            B = dc_survey.source_list[ii].location[1]
+            B = dc_survey.source_list[ii].location[-1]
 
             xout = np.mean([A[0:2], B[0:2]], axis=0)
 
@@ -1478,7 +1478,7 @@ def xy_2_lineID(dc_survey):
             continue
 
         A = dc_survey.source_list[ii].location[0]
-        B = dc_survey.source_list[ii].location[1]
+        B = dc_survey.source_list[ii].location[-1]
 
         xin = np.mean([A[0:2], B[0:2]], axis=0)
 
-- 
2.43.0


From 300cc658d94125cf7edf42887c564ddc5599c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:17 +0000
Subject: [PATCH 070/154] fix: record arrays of natural source data with
 tippers or several 1D locations

---
 simpeg/electromagnetics/natural_source/survey.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/survey.py b/simpeg/electromagnetics/natural_source/survey.py
index fc3751d..5bdd37e 100644
--- a/simpeg/electromagnetics/natural_source/survey.py
+++ b/simpeg/electromagnetics/natural_source/survey.py
@@ -88,9 +88,9 @@ class Data(BaseData, DataNSEMPlotMethods):
             # Assume the same locs for all RX
             locs = src.receiver_list[0].locations_e
             if locs.shape[1] == 1:
-                locs = np.hstack((np.array([[0.0, 0.0]]), locs))
+                locs = np.hstack((np.zeros((len(locs), 2)), locs))
             elif locs.shape[1] == 2:
-                locs = np.hstack((np.array([[0.0]]), locs))
+                locs = np.hstack((np.zeros((len(locs), 1)), locs))
             tArrRec = np.concatenate(
                 (
                     src.frequency * np.ones((locs.shape[0], 1)),
@@ -208,14 +208,14 @@ class Data(BaseData, DataNSEMPlotMethods):
                             dataList.append(dFreq[rxType][notNaNind].imag.copy())
                     else:
                         component = "real" if "r" in rxType else "imag"
-                        if "z" in rxType:
+                        if "t" not in rxType:
                             receiver_list.append(
                                 Impedance(
                                     locs, orientation=rxType[1:3], component=component
                                 )
                             )
                             dataList.append(dFreq[rxType][notNaNind].copy())
-                        if "t" in rxType:
+                        else:
                             receiver_list.append(
                                 Tipper(
                                     locs, orientation=rxType[1:3], component=component
-- 
2.43.0


From cf1f6798d521010c5ad85c8edc3f96e58ab7e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:53 +0000
Subject: [PATCH 071/154] fix: resampling and 1D conversion of natural source
 data

---
 .../electromagnetics/natural_source/survey.py |   2 +-
 .../natural_source/utils/data_utils.py        | 108 +++++++-----------
 2 files changed, 43 insertions(+), 67 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/survey.py b/simpeg/electromagnetics/natural_source/survey.py
index 5bdd37e..040c2bf 100644
--- a/simpeg/electromagnetics/natural_source/survey.py
+++ b/simpeg/electromagnetics/natural_source/survey.py
@@ -86,7 +86,7 @@ class Data(BaseData, DataNSEMPlotMethods):
             # Note: needs to be written more generally,
             # using diffterent rxTypes and not all the data at the locations
             # Assume the same locs for all RX
-            locs = src.receiver_list[0].locations_e
+            locs = src.receiver_list[0].locations[0]
             if locs.shape[1] == 1:
                 locs = np.hstack((np.zeros((len(locs), 2)), locs))
             elif locs.shape[1] == 2:
diff --git a/simpeg/electromagnetics/natural_source/utils/data_utils.py b/simpeg/electromagnetics/natural_source/utils/data_utils.py
index 1d226b0..278c209 100644
--- a/simpeg/electromagnetics/natural_source/utils/data_utils.py
+++ b/simpeg/electromagnetics/natural_source/utils/data_utils.py
@@ -100,14 +100,23 @@ def resample_data(NSEMdata, locs="All", freqs="All", rxs="All", verbose=False):
     floor_list = []
 
     # Sort out input frequencies
-    if locs == "All":
-        locations = NSEMdata._unique_locations()
+    if isinstance(locs, str) and locs == "All":
+        locations = np.unique(
+            np.vstack(
+                [
+                    rx.locations[0]
+                    for src in NSEMdata.survey.source_list
+                    for rx in src.receiver_list
+                ]
+            ),
+            axis=0,
+        )
     elif isinstance(locs, np.ndarray):
         locations = locs
     else:
         raise IOError("Incorrect input type for locs. \n" + "Can be 'All' or ndarray ")
     # Sort out input frequencies
-    if freqs == "All":
+    if isinstance(freqs, str) and freqs == "All":
         frequencies = NSEMdata.survey.frequencies
     elif isinstance(freqs, np.ndarray):
         frequencies = freqs
@@ -136,6 +145,7 @@ def resample_data(NSEMdata, locs="All", freqs="All", rxs="All", verbose=False):
         raise IOError("Incorrect input type for rxs. \n" + "Can be 'All' or a list")
 
     # Filter the data
+    survey_slices = NSEMdata.survey.get_all_slices()
     for src in NSEMdata.survey.source_list:
         if src.frequency in frequencies:
             new_receiver_list = []
@@ -146,73 +156,37 @@ def resample_data(NSEMdata, locs="All", freqs="All", rxs="All", verbose=False):
                         for (ct, co) in rx_comp
                     ]
                 ):
-                    if len(rx.locations.shape) == 3:
-                        ind_loc = np.sum(
-                            np.concatenate(
-                                [
-                                    (
-                                        np.sqrt(
-                                            np.sum(
-                                                (rx.locations[:, :, 0] - location) ** 2,
-                                                axis=1,
-                                            )
-                                        )
-                                        < 0.1
-                                    ).reshape(-1, 1)
-                                    for location in locations
-                                ],
-                                axis=1,
-                            ),
-                            axis=1,
-                            dtype=bool,
-                        )
-                        new_locs = rx.locations[ind_loc, :, :]
-                    else:
-                        ind_loc = np.sum(
-                            np.concatenate(
-                                [
-                                    (
-                                        np.sqrt(
-                                            np.sum(
-                                                (rx.locations[:, :] - location) ** 2,
-                                                axis=1,
-                                            )
-                                        )
-                                        < 0.1
-                                    ).reshape(-1, 1)
-                                    for location in locations
-                                ],
-                                axis=1,
-                            ),
-                            axis=1,
-                            dtype=bool,
-                        )
-                        new_locs = rx.locations[ind_loc, :]
-                    new_rx = type(rx)
+                    rx_locs = rx.locations
+                    ind_loc = np.any(
+                        [
+                            np.linalg.norm(rx_locs[0] - location, axis=1) < 0.1
+                            for location in locations
+                        ],
+                        axis=0,
+                    )
                     new_receiver_list.append(
-                        new_rx(new_locs, rx.orientation, rx.component)
+                        type(rx)(
+                            rx_locs[0][ind_loc],
+                            rx_locs[1][ind_loc],
+                            orientation=rx.orientation,
+                            component=rx.component,
+                        )
                     )
-                    data_list.append(NSEMdata[src, rx][ind_loc])
-                    try:
-                        std_list.append(NSEMdata.relative_error[src, rx][ind_loc])
-                        floor_list.append(NSEMdata.floor[src, rx][ind_loc])
-                    except Exception as e:
-                        if verbose:
-                            print("No standard deviation or floor assigned. " + str(e))
+                    rx_slice = survey_slices[src, rx]
+                    data_list.append(NSEMdata.dobs[rx_slice][ind_loc])
+                    std_list.append(NSEMdata.relative_error[rx_slice][ind_loc])
+                    floor_list.append(NSEMdata.noise_floor[rx_slice][ind_loc])
 
             new_src = type(src)
             new_source_list.append(new_src(new_receiver_list, src.frequency))
 
     survey = Survey(new_source_list)
-    if std_list or floor_list:
-        return Data(
-            survey,
-            np.concatenate(data_list),
-            np.concatenate(std_list),
-            np.concatenate(floor_list),
-        )
-    else:
-        return Data(survey, np.concatenate(data_list))
+    return Data(
+        survey,
+        np.concatenate(data_list),
+        np.concatenate(std_list),
+        np.concatenate(floor_list),
+    )
 
 
 def convert3Dto1Dobject(NSEMdata, rxType3D="yx"):
@@ -230,7 +204,7 @@ def convert3Dto1Dobject(NSEMdata, rxType3D="yx"):
 
     # Find the unique locations
     # Need to find the locations
-    recDataTemp = NSEMdata.toRecArray().data.flatten()
+    recDataTemp = np.asarray(NSEMdata.toRecArray()).flatten()
     # Check if survey.std has been assigned.
     ## NEED TO: write this...
     # Calculte and add the DET of the tensor to the recArray
@@ -243,13 +217,15 @@ def convert3Dto1Dobject(NSEMdata, rxType3D="yx"):
         )
         det = np.sqrt(Zon - Zoff)
         recData = recFunc.append_fields(
-            recDataTemp, ["zdetr", "zdeti"], [det.real, det.imag]
+            recDataTemp, ["zdetr", "zdeti"], [det.real, det.imag], usemask=False
         )
     else:
         recData = recDataTemp
 
     uniLocs = rec_to_ndarr(np.unique(recData[["x", "y", "z"]].copy()))
     mtData1DList = []
+    # Accept both 'yx' and 'zyx'
+    rxType3D = rxType3D.removeprefix("z")
     if "xy" in rxType3D:
         corr = -1
         # Shift the data to comply with the quadtrature of the 1d problem
@@ -275,7 +251,7 @@ def convert3Dto1Dobject(NSEMdata, rxType3D="yx"):
             src1DList.append(PlanewaveXYPrimary(rx1DList, freq))
             for comp in ["r", "i"]:
                 dat1DList.append(
-                    corr * locrecData[rxType3D + comp][locrecData["freq"] == freq]
+                    corr * locrecData["z" + rxType3D + comp][locrecData["freq"] == freq]
                 )
 
         # Make the survey
-- 
2.43.0


From 3e3a24ce52209ca8a18bec996009d346a5767cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 072/154] fix: reading secondary potentials in simple format
 and rotating data of one source

---
 .../natural_source/utils/data_utils.py        |  2 +-
 .../io_utils/io_utils_electromagnetics.py     | 19 +++++++++----------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/utils/data_utils.py b/simpeg/electromagnetics/natural_source/utils/data_utils.py
index 278c209..6fb60b8 100644
--- a/simpeg/electromagnetics/natural_source/utils/data_utils.py
+++ b/simpeg/electromagnetics/natural_source/utils/data_utils.py
@@ -24,7 +24,7 @@ def rotate_data(NSEMdata, rot_angle):
     :param simpeg.electromagnetics.natural_source.Data NSEMdata: NSEM data object to process
     :param float rot_angle: Rotation angel in degrees, positive for clockwise rotation
     """
-    recData = NSEMdata.toRecArray("Complex")
+    recData = NSEMdata.toRecArray("Complex").flatten()
     impData = rec_to_ndarr(recData[["zxx", "zxy", "zyx", "zyy"]].copy(), complex)
     # Make the rotation matrix
     # c,s,zxx,zxy,zyx,zyy = sympy.symbols('c,s,zxx,zxy,zyx,zyy')
diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index 349d348..6373864 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -281,7 +281,9 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
     from ...data import Data
 
     # Load file
-    obsfile = np.genfromtxt(file_name, delimiter="\n", dtype=str, comments="!")
+    obsfile = np.atleast_1d(
+        np.genfromtxt(file_name, delimiter="\n", dtype=str, comments="!")
+    )
 
     # Find starting data
     start_index = 0
@@ -307,14 +309,9 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
 
     if format_type == "simple":
         # Load numeric data into an array
-        if data_type == "volt":
-            data_array = np.loadtxt(
-                file_name, comments="!", skiprows=start_index, ndmin=2
-            )
-        else:
-            data_array = np.loadtxt(
-                file_name, comments={"!", "IPTYPE"}, skiprows=start_index, ndmin=2
-            )
+        data_array = np.loadtxt(
+            file_name, comments=("!", "IPTYPE"), skiprows=start_index, ndmin=2
+        )
 
         n_rows = np.shape(data_array)[0]
 
@@ -493,7 +490,9 @@ def read_dcip3d_ubc(file_name, data_type):
     from ...data import Data
 
     # Load file
-    obsfile = np.genfromtxt(file_name, delimiter="\n", dtype=str, comments="!")
+    obsfile = np.atleast_1d(
+        np.genfromtxt(file_name, delimiter="\n", dtype=str, comments="!")
+    )
 
     # Pre-allocate
     source_list = []
-- 
2.43.0


From 5b446272080b731a5d36d9539cd646c3645c8acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:18 +0000
Subject: [PATCH 073/154] fix: draped points with elevations are not placed on
 the surface of their column

---
 simpeg/utils/mesh_utils.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/simpeg/utils/mesh_utils.py b/simpeg/utils/mesh_utils.py
index be9d14e..e918220 100644
--- a/simpeg/utils/mesh_utils.py
+++ b/simpeg/utils/mesh_utils.py
@@ -267,22 +267,14 @@ def shift_to_discrete_topography(
     )
 
     if pts.ndim == 2 and pts.shape[1] == mesh.dim:
-        has_elevation = True
         horizontal_pts = pts[:, :-1]
     else:
-        has_elevation = False
         horizontal_pts = pts.squeeze()  # in case (n, 1) array
 
     topo_inds = _closest_grid_indices(discrete_topography[:, :-1], horizontal_pts)
 
     if shift_horizontal:
-        if has_elevation:
-            cell_inds = mesh.point2index(pts)
-            out = np.c_[
-                mesh.cell_centers[cell_inds, :-1], discrete_topography[topo_inds, -1]
-            ]
-        else:
-            out = discrete_topography[topo_inds, :]
+        out = discrete_topography[topo_inds, :]
     else:
         out = np.c_[horizontal_pts, discrete_topography[topo_inds, -1]]
 
-- 
2.43.0


From 9ab9399cc2d5007cca7fc654b9a6da8b4eb42f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:30 +0000
Subject: [PATCH 074/154] fix: maximum step is not applied to negative steps

---
 simpeg/optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index 76c328e..f410e54 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -714,8 +714,9 @@ class Minimize(object):
             The scaled search direction.
         """
 
-        if self.maxStep < np.abs(p.max()):
-            p = self.maxStep * p / np.abs(p.max())
+        p_max = np.abs(p).max()
+        if self.maxStep < p_max:
+            p = self.maxStep * p / p_max
         return p
 
     nameLS = "Armijo linesearch"  #: The line-search name
-- 
2.43.0


From fa61d71db357c34b11dd626c0c9219ffebda362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:40 +0000
Subject: [PATCH 075/154] fix: root finder takes one iteration more than its
 limit

---
 simpeg/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index f410e54..18dbb8c 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1508,7 +1508,7 @@ class NewtonRoot(object):
             self.iter += 1
             if norm(rt) < self.tol:
                 break
-            if self.iter > self.maxIter:
+            if self.iter >= self.maxIter:
                 print(
                     "NewtonRoot stopped by maxIters ({0:d}). "
                     "norm: {1:4.4e}".format(self.maxIter, norm(rt))
-- 
2.43.0


From d2a00683099a4d9101e8f6d372a00d6be86c7e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:40 +0000
Subject: [PATCH 076/154] fix: projected gradient accepts increasing steps when
 all variables reach their bounds

---
 simpeg/optimization.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index 18dbb8c..e5e071c 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1143,7 +1143,6 @@ class ProjectedGradient(Bounded, InexactCG, Minimize, Remember):
         )
 
         self.stoppers.append(StoppingCriteria.bindingSet)
-        self.stoppersLS.append(StoppingCriteria.bindingSet_LS)
 
         self.printers.extend(
             [
-- 
2.43.0


From 294516a3d1078a3c25ab835b6061fed99196b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:40 +0000
Subject: [PATCH 077/154] fix: projected GNCG does not leave bounds when no
 other cell moves

---
 simpeg/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index e5e071c..5332eb4 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1699,8 +1699,9 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
             # active cell boundaries. Basically scale it to have the same
             # maximum as the cg step on the cells that are not on the
             # boundary.
-            dm_i = max(abs(step))
             dm_a = max(abs(rhs_a))
+            # (without any step on the other cells, use the gradient's own scale)
+            dm_i = max(abs(step)) or dm_a
 
             # add the active set's gradients.
             step += self.active_set_grad_scale * (rhs_a * dm_i / dm_a)
-- 
2.43.0


From d47aa24b39e25bb89e319c07594b565dce791290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:08 +0000
Subject: [PATCH 078/154] fix: loading and plotting saved inversion output

---
 simpeg/directives/_directives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index 5cbaa81..ca1317d 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -1959,7 +1959,7 @@ class SaveOutputEveryIteration(SaveEveryIteration):
                     f"'file_name' is a required argument if '{type(self).__qualname__}.on_disk' is `False`"
                 )
             file_name = self.file_abs_path
-        results = np.loadtxt(file_name, comments="#")
+        results = np.loadtxt(file_name, comments="#", ndmin=2)
         if results.shape[1] != 9:
             raise ValueError(f"{file_name} does not have valid results")
 
@@ -1976,7 +1976,7 @@ class SaveOutputEveryIteration(SaveEveryIteration):
             self.phi_m_smooth_x + self.phi_m_smooth_y + self.phi_m_smooth_z
         )
 
-        self.target_misfit = self.invProb.dmisfit.simulation.survey.nD
+        self.target_misfit = np.sum([survey.nD for survey in self.survey])
         self.i_target = None
 
         if self.invProb.phi_d < self.target_misfit:
@@ -2048,7 +2048,7 @@ class SaveOutputEveryIteration(SaveEveryIteration):
             fig.savefig(fname, dpi=dpi)
 
     def plot_tikhonov_curves(self, fname=None, dpi=200):
-        self.target_misfit = self.invProb.dmisfit.simulation.survey.nD
+        self.target_misfit = np.sum([survey.nD for survey in self.survey])
         self.i_target = None
 
         if self.invProb.phi_d < self.target_misfit:
-- 
2.43.0


From a94e9b4d9f317bd6b3e73a57679d9474eacee45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:37 +0000
Subject: [PATCH 079/154] fix: number of power iterations ignored when scaling
 data misfits

---
 simpeg/directives/_directives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index ca1317d..c151b2d 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -936,7 +936,9 @@ class ScalingMultipleDataMisfits_ByEig(InversionDirective):
         dm_eigenvalue_list = []
         for dm in self.dmisfit.objfcts:
             dm_eigenvalue_list += [
-                eigenvalue_by_power_iteration(dm, m, random_seed=rng)
+                eigenvalue_by_power_iteration(
+                    dm, m, n_pw_iter=self.n_pw_iter, random_seed=rng
+                )
             ]
 
         self.chi0 = self.chi0_ratio / np.r_[dm_eigenvalue_list]
-- 
2.43.0


From b9263eafd34e99af9d24ead36165f56b2982362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:37 +0000
Subject: [PATCH 080/154] fix: joint scaling schedule with several misfits
 above target or without targets

---
 simpeg/directives/_directives.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index c151b2d..fd32cad 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -1064,6 +1064,8 @@ class JointScalingSchedule(InversionDirective):
             print("Initial data misfit scales: ", self.dmisfit.multipliers)
 
     def endIter(self):
+        if self.DMtarget is None:
+            return
         self.dmlist = self.inversion.directiveList.dList[self.targetclass].dmlist
 
         if np.any(self.dmlist < self.DMtarget):
@@ -1081,10 +1083,9 @@ class JointScalingSchedule(InversionDirective):
                         multipliers = self.warmingFactor * np.median(
                             self.DMtarget[~indx] / self.dmlist[~indx]
                         )
-                        if np.sum(indx) == 1:
-                            indx = np.where(indx)[0][0]
-                        self.dmisfit.multipliers[indx] *= multipliers
-                        self.dmisfit.multipliers /= np.sum(self.dmisfit.multipliers)
+                        scales = np.array(self.dmisfit.multipliers, dtype=float)
+                        scales[indx] *= multipliers
+                        self.dmisfit.multipliers = scales / np.sum(scales)
 
                         if self.verbose:
                             print("Updating scaling for data misfits by ", multipliers)
-- 
2.43.0


From 1096a91c88c3800675e8f9f0aa19a50d50fb2b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:37 +0000
Subject: [PATCH 081/154] fix: saved trade-off parameters of joint inversions
 change after they are saved

---
 simpeg/directives/_sim_directives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/directives/_sim_directives.py b/simpeg/directives/_sim_directives.py
index 7a5f13a..b0786e2 100644
--- a/simpeg/directives/_sim_directives.py
+++ b/simpeg/directives/_sim_directives.py
@@ -140,7 +140,7 @@ class SimilarityMeasureSaveOutputEveryIteration(SaveOutputEveryIteration):
         self.phi_sim = []
 
     def endIter(self):
-        self.betas.append(self.invProb.betas)
+        self.betas.append(list(self.invProb.betas))
         self.phi_d.append(self.invProb.phi_d_list)
         self.phi_m.append(self.invProb.phi_m_list)
         self.lambd.append(self.invProb.lambd)
-- 
2.43.0


From eeb6110d143bc7e0e85a0f06ce8b0524f53cdbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:37 +0000
Subject: [PATCH 082/154] fix: preconditioner update with regularizations that
 vanish

---
 simpeg/directives/_directives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index fd32cad..a12bdf1 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -2244,7 +2244,9 @@ class UpdatePreconditioner(InversionDirective):
 
         for reg in self.reg.objfcts:
             # Check if he has wire
-            regDiag += reg.deriv2(m).diagonal()
+            rdg = reg.deriv2(m)
+            if not isinstance(rdg, Zero):
+                regDiag += rdg.diagonal()
 
         JtJdiag = np.zeros_like(self.invProb.model)
         for sim, dmisfit in zip(self.simulation, self.dmisfit.objfcts):
-- 
2.43.0


From 1e0fb417ee01751cc2fff609b317c99d71cf3b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:49 +0000
Subject: [PATCH 083/154] fix: products and data of fields computed before
 those of another model

---
 .../frequency_domain/simulation.py            | 24 ++++++++++------
 .../electromagnetics/natural_source/fields.py |  4 +--
 .../static/resistivity/simulation.py          | 15 ++++++++--
 .../static/resistivity/simulation_2d.py       | 28 ++++++++++++++-----
 simpeg/flow/richards/simulation.py            |  4 +++
 .../potential_fields/magnetics/simulation.py  | 18 +++++++-----
 simpeg/simulation.py                          |  5 ++++
 7 files changed, 72 insertions(+), 26 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 1e68454..675d40e 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -184,10 +184,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
         if m is not None:
             self.model = m
 
-        try:
-            self.Ainv
-        except AttributeError:
-            self.Ainv = len(self.survey.frequencies) * [None]
+        self.Ainv = len(self.survey.frequencies) * [None]
 
         f = self.fieldsPair(self)
 
@@ -203,6 +200,15 @@ class BaseFDEMSimulation(BaseEMSimulation):
             f[Srcs, self._solutionType] = u
         return f
 
+    def _get_Ainv(self):
+        """Factorizations of the systems of the current model, one per frequency."""
+        if getattr(self, "Ainv", None) is None:
+            self.Ainv = len(self.survey.frequencies) * [None]
+        for i_f, freq in enumerate(self.survey.frequencies):
+            if self.Ainv[i_f] is None:
+                self.Ainv[i_f] = self.solver(self.getA(freq), **self.solver_opts)
+        return self.Ainv
+
     # @profile
     def Jvec(self, m, v, f=None):
         r"""Compute the sensitivity matrix times a vector.
@@ -241,6 +247,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
         self.model = m
 
         survey_slices = self.survey.get_all_slices()
+        Ainv = self._get_Ainv()
         Jv = np.full(self.survey.nD, fill_value=np.nan)
 
         for nf, freq in enumerate(self.survey.frequencies):
@@ -248,7 +255,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
                 u_src = f[src, self._solutionType]
                 dA_dm_v = self.getADeriv(freq, u_src, v, adjoint=False)
                 dRHS_dm_v = self.getRHSDeriv(freq, src, v)
-                du_dm_v = self.Ainv[nf] * (-dA_dm_v + dRHS_dm_v)
+                du_dm_v = Ainv[nf] * (-dA_dm_v + dRHS_dm_v)
                 for rx in src.receiver_list:
                     src_rx_slice = survey_slices[src, rx]
                     Jv[src_rx_slice] = mkvc(
@@ -296,6 +303,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
         # Get dict of flat array slices for each source-receiver pair in the survey
         survey_slices = self.survey.get_all_slices()
 
+        Ainv = self._get_Ainv()
         Jtv = np.zeros(m.size)
 
         for nf, freq in enumerate(self.survey.frequencies):
@@ -313,7 +321,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
                     if not isinstance(df_dmT, Zero):
                         df_dmT_sum += df_dmT
 
-                ATinvdf_duT = self.Ainv[nf] * df_duT_sum
+                ATinvdf_duT = Ainv[nf] * df_duT_sum
 
                 dA_dmT = self.getADeriv(freq, u_src, ATinvdf_duT, adjoint=True)
                 dRHS_dmT = self.getRHSDeriv(freq, src, ATinvdf_duT, adjoint=True)
@@ -353,7 +361,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
             if f is None:
                 f = self.fields(m)
 
-            Ainv = self.Ainv
+            Ainv = self._get_Ainv()
             m_size = self.model.size
 
             Jmatrix = np.zeros((self.survey.nD, m_size))
@@ -497,7 +505,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
             List of the model-dependent attributes to clean upon model update.
         """
         toDelete = super()._delete_on_model_update
-        return toDelete + ["_Jmatrix", "_gtgdiag"]
+        return toDelete + ["_Jmatrix", "_gtgdiag", "Ainv"]
 
 
 ###############################################################################
diff --git a/simpeg/electromagnetics/natural_source/fields.py b/simpeg/electromagnetics/natural_source/fields.py
index a412f04..c347fe6 100644
--- a/simpeg/electromagnetics/natural_source/fields.py
+++ b/simpeg/electromagnetics/natural_source/fields.py
@@ -22,7 +22,7 @@ class _1DField:
         if not adjoint:
             dA_dm_v = sim.getADeriv(freq, u_src, v, adjoint=False)
             dRHS_dm_v = sim.getRHSDeriv(freq, src, v)
-            du_dm_v = sim.Ainv[nf] * (-dA_dm_v + dRHS_dm_v)
+            du_dm_v = sim._get_Ainv()[nf] * (-dA_dm_v + dRHS_dm_v)
             if field == "e":
                 return self._eDeriv(src, du_dm_v, v, adjoint=False)
             elif field == "h":
@@ -32,7 +32,7 @@ class _1DField:
                 df_duT, df_dmT = self._eDeriv(src, None, v, adjoint=True)
             elif field == "h":
                 df_duT, df_dmT = self._hDeriv(src, None, v, adjoint=True)
-            ATinv_duT = sim.Ainv[nf] * df_duT
+            ATinv_duT = sim._get_Ainv()[nf] * df_duT
             dA_dmT = sim.getADeriv(freq, u_src, ATinv_duT, adjoint=True)
             dRHS_dmT = sim.getRHSDeriv(freq, src, ATinv_duT, adjoint=True)
             du_dmT = -dA_dmT + dRHS_dmT
diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index 7d4d0e2..96fd83f 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -112,6 +112,12 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
 
         return f
 
+    def _get_Ainv(self):
+        """Factorization of the system of the current model."""
+        if self.Ainv is None:
+            self.Ainv = self.solver(self.getA(), **self.solver_opts)
+        return self.Ainv
+
     def getJ(self, m, f=None):
         self.model = m
         if getattr(self, "_Jmatrix", None) is None:
@@ -171,12 +177,13 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         else:
             survey = self.survey
 
+        Ainv = self._get_Ainv()
         Jv = []
         for source in survey.source_list:
             u_source = f[source, self._solutionType]  # solution vector
             dA_dm_v = self.getADeriv(u_source, v)
             dRHS_dm_v = self.getRHSDeriv(source, v)
-            du_dm_v = self.Ainv * (-dA_dm_v + dRHS_dm_v)
+            du_dm_v = Ainv * (-dA_dm_v + dRHS_dm_v)
             for rx in source.receiver_list:
                 df_dmFun = getattr(f, "_{0!s}Deriv".format(rx.projField), None)
                 df_dm_v = df_dmFun(source, du_dm_v, v, adjoint=False)
@@ -222,6 +229,8 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
             istrt = int(0)
             iend = int(0)
 
+        Ainv = self._get_Ainv()
+
         # Get dict of flat array slices for each source-receiver pair in the survey
         survey_slices = survey.get_all_slices()
 
@@ -240,7 +249,7 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
                 df_duTFun = getattr(f, "_{0!s}Deriv".format(rx.projField), None)
                 df_duT, df_dmT = df_duTFun(source, None, PTv, adjoint=True)
 
-                ATinvdf_duT = self.Ainv * df_duT
+                ATinvdf_duT = Ainv * df_duT
 
                 dA_dmT = self.getADeriv(u_source, ATinvdf_duT, adjoint=True)
                 dRHS_dmT = self.getRHSDeriv(source, ATinvdf_duT, adjoint=True)
@@ -289,6 +298,8 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
     @property
     def _delete_on_model_update(self):
         toDelete = super()._delete_on_model_update
+        if "Ainv" in self.__dict__:
+            toDelete = toDelete + ["Ainv"]
         return toDelete + ["_Jmatrix", "_gtgdiag"]
 
     def _mini_survey_data(self, d_mini):
diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index 3075e8f..3f0b63a 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -34,6 +34,7 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
     fieldsPair_fwd = FieldsDC
     # there's actually nT+1 fields, so we don't need to store the last one
     _mini_survey = None
+    Ainv = None
 
     def __init__(
         self,
@@ -121,7 +122,6 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
         self._quad_weights = weights
         self._quad_points = points
 
-        self.Ainv = [None for i in range(self.nky)]
         self.nT = self.nky - 1  # Only for using TimeFields
 
         # Do stuff to simplify the forward and JTvec operation if number of dipole
@@ -225,9 +225,8 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
             print(">> Compute fields")
         if m is not None:
             self.model = m
-        if self.Ainv[0] is not None:
-            for i in range(self.nky):
-                self.Ainv[i].clean()
+        if self.Ainv is None:
+            self.Ainv = self.nky * [None]
         f = self.fieldsPair(self)
         kys = self._quad_points
         f._quad_weights = self._quad_weights
@@ -258,6 +257,8 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
 
         weights = self._quad_weights
         if self._mini_survey is not None:
@@ -275,6 +276,15 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
 
         return self._mini_survey_data(temp)
 
+    def _get_Ainv(self):
+        """Factorizations of the systems of the current model, one per wavenumber."""
+        if self.Ainv is None:
+            self.Ainv = [
+                self.solver(self.getA(ky), **self.solver_opts)
+                for ky in self._quad_points
+            ]
+        return self.Ainv
+
     def getJ(self, m, f=None):
         """
         Generate Full sensitivity matrix
@@ -310,6 +320,7 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
         kys = self._quad_points
         weights = self._quad_weights
 
+        Ainv = self._get_Ainv()
         Jv = np.zeros(survey.nD)
         # Assume y=0.
         # This needs some thoughts to implement in general when src is dipole
@@ -322,7 +333,7 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
                 u_src = u_ky[:, i_src]
                 dA_dm_v = self.getADeriv(ky, u_src, v, adjoint=False)
                 # dRHS_dm_v = self.getRHSDeriv(ky, src, v) = 0
-                du_dm_v = self.Ainv[iky] * (-dA_dm_v)  # + dRHS_dm_v)
+                du_dm_v = Ainv[iky] * (-dA_dm_v)  # + dRHS_dm_v)
                 for rx in src.receiver_list:
                     df_dmFun = getattr(f, "_{0!s}Deriv".format(rx.projField), None)
                     df_dm_v = df_dmFun(iky, src, du_dm_v, v, adjoint=False)
@@ -356,6 +367,7 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
         """
         kys = self._quad_points
         weights = self._quad_weights
+        Ainv = self._get_Ainv()
         if self._mini_survey is not None:
             survey = self._mini_survey
         else:
@@ -387,7 +399,7 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
                         df_duT_sum += df_duT
                         df_dmT_sum += df_dmT
 
-                    ATinvdf_duT = self.Ainv[iky] * df_duT_sum
+                    ATinvdf_duT = Ainv[iky] * df_duT_sum
 
                     dA_dmT = self.getADeriv(ky, u_src, ATinvdf_duT, adjoint=True)
                     # dRHS_dmT = self.getRHSDeriv(ky, src, ATinvdf_duT,
@@ -407,7 +419,7 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
                     for rx in src.receiver_list:
                         # wrt f, need possibility wrt m
                         PT = rx.evalDeriv(src, self.mesh, f).toarray().T
-                        ATinvdf_duT = self.Ainv[iky] * PT
+                        ATinvdf_duT = Ainv[iky] * PT
 
                         dA_dmT = self.getADeriv(ky, u_src, ATinvdf_duT, adjoint=True)
                         Jtv = -weights[iky] * dA_dmT  # RHS=0
@@ -450,6 +462,8 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
     @property
     def _delete_on_model_update(self):
         toDelete = super()._delete_on_model_update
+        if "Ainv" in self.__dict__:
+            toDelete = toDelete + ["Ainv"]
         if self.fix_Jmatrix:
             return toDelete
         return toDelete + ["_Jmatrix"]
diff --git a/simpeg/flow/richards/simulation.py b/simpeg/flow/richards/simulation.py
index b959189..da7554d 100644
--- a/simpeg/flow/richards/simulation.py
+++ b/simpeg/flow/richards/simulation.py
@@ -228,6 +228,8 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
         """
         if f is None:
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
 
         Ds = list(range(len(self.survey.receiver_list)))
 
@@ -390,6 +392,7 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
     def Jvec(self, m, v, f=None):
         if f is None:
             f = self.fields(m)
+        self.model = m
 
         JvC = list(range(len(f) - 1))  # Cell to hold each row of the long vector
 
@@ -415,6 +418,7 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
     def Jtvec(self, m, v, f=None):
         if f is None:
             f = self.fields(m)
+        self.model = m
 
         PTv, PTdv = self.survey.derivAdjoint(self, f, v=v)
 
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index a99cae0..fbc7ea6 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -1888,17 +1888,19 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
         return A
 
+    def _get_Ainv(self):
+        if self._Ainv is None:
+            self._Ainv = self.solver(self._getA(), **self.solver_opts)
+        return self._Ainv
+
     def fields(self, m):
         self.model = m
 
         if self._stored_fields is None:
 
-            if self._Ainv is None:
-                self._Ainv = self.solver(self._getA(), **self.solver_opts)
-
             rhs = self._getRHS(m)
 
-            u = self._Ainv * rhs
+            u = self._get_Ainv() * rhs
             b_field = -self.MfMuiI * self._DivT * u
 
             if not np.isscalar(self.mu) or not np.allclose(self.mu, mu_0):
@@ -2008,13 +2010,15 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
         if v is None:
             v = np.eye(Q.shape[0])
             divt_solve_q = (
-                self._DivT * (self._Ainv * ((Q * self.MfMuiI * -self._DivT).T * v))
+                self._DivT
+                * (self._get_Ainv() * ((Q * self.MfMuiI * -self._DivT).T * v))
                 + Q.T * v
             )
             del v
         else:
             divt_solve_q = (
-                self._DivT * (self._Ainv * ((-self._Div * (self.MfMuiI.T * (Q.T * v)))))
+                self._DivT
+                * (self._get_Ainv() * ((-self._Div * (self.MfMuiI.T * (Q.T * v)))))
                 + Q.T * v
             )
 
@@ -2088,7 +2092,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
                     self.MfMuiI * Mf_r_mui_deriv * v
                 )
 
-        Ainv_Ddm = self._Ainv * (self._Div * (-dCmu_dm + db_dm))
+        Ainv_Ddm = self._get_Ainv() * (self._Div * (-dCmu_dm + db_dm))
 
         Jv = Q * (C * Ainv_Ddm + (-dCmu_dm + db_dm))
 
diff --git a/simpeg/simulation.py b/simpeg/simulation.py
index bbde7df..d72ae1e 100644
--- a/simpeg/simulation.py
+++ b/simpeg/simulation.py
@@ -186,6 +186,9 @@ class BaseSimulation(props.HasModel):
                 m = self.model
 
             f = self.fields(m)
+        elif m is not None:
+            # fields are converted to data with the properties of this model
+            self.model = m
 
         survey_slices = self.survey.get_all_slices()
         dpred = np.full(self.survey.nD, np.nan)
@@ -597,6 +600,8 @@ class BaseTimeSimulation(BaseSimulation):
 
         if f is None:
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
 
         survey_slices = self.survey.get_all_slices()
         dpred = np.full(self.survey.nD, np.nan)
-- 
2.43.0


From 4d75f00cd8f02b319cb2f854818547964aa793f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:42 +0000
Subject: [PATCH 084/154] fix: Gram diagonals of meta simulations ignore
 changed weights

---
 simpeg/meta/dask_sim.py        | 10 ++--------
 simpeg/meta/multiprocessing.py |  6 ++----
 simpeg/meta/simulation.py      | 30 ++++++++++++++++++++++--------
 3 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/simpeg/meta/dask_sim.py b/simpeg/meta/dask_sim.py
index 701dffe..b36073c 100644
--- a/simpeg/meta/dask_sim.py
+++ b/simpeg/meta/dask_sim.py
@@ -468,11 +468,8 @@ class DaskMetaSimulation(MetaSimulation):
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
         m_future = self._m_as_future
+        W = self._jtjdiag_weights(W)
         if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
             jtj_diag = []
             client = self.client
             if f is None:
@@ -618,12 +615,9 @@ class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
+        W = self._jtjdiag_weights(W)
         if getattr(self, "_jtjdiag", None) is None:
             jtj_diag = []
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
             client = self.client
             if f is None:
                 f = self.fields(m)
diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index 05edf03..c97c2eb 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -327,11 +327,8 @@ class MultiprocessingMetaSimulation(MetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
+        W = self._jtjdiag_weights(W)
         if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
             if f is None:
                 f = self.fields(m)
             for i, (p, field) in enumerate(zip(self._sim_processes, f)):
@@ -410,6 +407,7 @@ class MultiprocessingSumMetaSimulation(
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
+        W = self._jtjdiag_weights(W)
         if getattr(self, "_jtjdiag", None) is None:
             if f is None:
                 f = self.fields(m)
diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index f2ebc30..84719d8 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -292,14 +292,8 @@ class MetaSimulation(BaseSimulation):
         then controlled by how diagonally dominant ``J.T @ J`` is.
         """
         self.model = m
+        W = self._jtjdiag_weights(W)
         if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                try:
-                    W = W.diagonal()
-                except (AttributeError, TypeError, ValueError):
-                    pass
             jtj_diag = 0.0
             # approximate the JtJ diag on the full model space as:
             # sum((diag(sqrt(jtj_diag)) @ M_deriv))**2)
@@ -324,6 +318,23 @@ class MetaSimulation(BaseSimulation):
 
         return self._jtjdiag
 
+    def _jtjdiag_weights(self, W):
+        """Get the diagonal of the data weights for ``getJtJdiag``.
+
+        Discards the result stored for other weights.
+        """
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            try:
+                W = W.diagonal()
+            except (AttributeError, TypeError, ValueError):
+                pass
+        if not np.array_equal(W, getattr(self, "_jtjdiag_W", None)):
+            self._jtjdiag = None
+        self._jtjdiag_W = np.array(W)
+        return W
+
     @property
     def _delete_on_model_update(self):
         return super()._delete_on_model_update + ["_jtjdiag"]
@@ -408,12 +419,15 @@ class SumMetaSimulation(MetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
+        W = self._jtjdiag_weights(W)
         if getattr(self, "_jtjdiag", None) is None:
             jtj_diag = 0.0
             if f is None:
                 f = self.fields(m)
             for mapping, sim, field in zip(self.mappings, self.simulations, f):
-                sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, W, f=field)))
+                sim_jtj = sp.diags(
+                    np.sqrt(sim.getJtJdiag(sim.model, sp.diags(W), f=field))
+                )
                 m_deriv = mapping.deriv(self.model)
                 jtj_diag += np.asarray(
                     (sim_jtj @ m_deriv).power(2).sum(axis=0)
-- 
2.43.0


From 29e5852c058e2a4d599fc18ffa535e2e90b474c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 085/154] fix: multiprocessing sum of simulations with fewer
 processes than simulations

---
 simpeg/meta/multiprocessing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index c97c2eb..34f3bdc 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -225,6 +225,9 @@ class MultiprocessingMetaSimulation(MetaSimulation):
     >>> mp.set_start_method("spawn")
     """
 
+    # type of the composite simulation of each process
+    _chunk_type = MetaSimulation
+
     def __init__(self, simulations, mappings, n_processes=None):
         super().__init__(simulations, mappings)
 
@@ -245,7 +248,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             if chunk == 0:
                 continue
             i_end = i_start + chunk
-            sim_chunk = MetaSimulation(
+            sim_chunk = self._chunk_type(
                 self.simulations[i_start:i_end], self.mappings[i_start:i_end]
             )
             chunk_nd.append(sim_chunk.survey.nD)
@@ -369,6 +372,8 @@ class MultiprocessingSumMetaSimulation(
         will be the minimum of this number and the number of simulations.
     """
 
+    _chunk_type = SumMetaSimulation
+
     def dpred(self, m=None, f=None):
         if f is None:
             if m is None:
-- 
2.43.0


From 2b46fa7b24b9e9b6fd33ad23535dcb03b319fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 086/154] fix: errors in worker processes shift or replace the
 results of later calls

---
 simpeg/meta/multiprocessing.py | 82 +++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 31 deletions(-)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index 34f3bdc..dcd52a0 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -51,6 +51,19 @@ class _SimulationProcess(Process):
         # We use them to communicate between the two.
         t_queue = self.task_queue
         r_queue = self.result_queue
+        # errors of the last model update of each simulation
+        _model_errors = {}
+
+        def check_model(sim_key):
+            if sim_key in _model_errors:
+                raise _model_errors[sim_key]
+
+        def get_fields(f_key):
+            fields = _cached_items[f_key]
+            if isinstance(fields, Exception):
+                raise fields
+            return fields
+
         while True:
             # Get a task from the queue
             task = t_queue.get()
@@ -74,41 +87,57 @@ class _SimulationProcess(Process):
                     # store_model
                     sim_key, m = args
                     sim = _cached_items[sim_key]
-                    sim.model = m
+                    # Nobody waits for an answer here:
+                    # keep the error for the operations that need the model
+                    _model_errors.pop(sim_key, None)
+                    try:
+                        sim.model = m
+                    except Exception as err:
+                        _model_errors[sim_key] = err
                 elif op == 1:
                     # create fields
                     (sim_key,) = args
                     sim = _cached_items[sim_key]
                     f_key = uuid.uuid4().hex
                     r_queue.put(f_key)
-                    fields = sim.fields(sim.model)
+                    # The answer was already given:
+                    # keep an error for the operations that need the fields
+                    try:
+                        check_model(sim_key)
+                        fields = sim.fields(sim.model)
+                    except Exception as err:
+                        fields = err
                     _cached_items[f_key] = fields
                 elif op == 2:
                     # do dpred
                     sim_key, f_key = args
                     sim = _cached_items[sim_key]
-                    fields = _cached_items[f_key]
+                    check_model(sim_key)
+                    fields = get_fields(f_key)
                     d_pred = sim.dpred(sim.model, fields)
                     r_queue.put(d_pred)
                 elif op == 3:
                     # do jvec
                     sim_key, v, f_key = args
                     sim = _cached_items[sim_key]
-                    fields = _cached_items[f_key]
+                    check_model(sim_key)
+                    fields = get_fields(f_key)
                     jvec = sim.Jvec(sim.model, v, fields)
                     r_queue.put(jvec)
                 elif op == 4:
                     # do jtvec
                     sim_key, v, f_key = args
                     sim = _cached_items[sim_key]
-                    fields = _cached_items[f_key]
+                    check_model(sim_key)
+                    fields = get_fields(f_key)
                     jtvec = sim.Jtvec(sim.model, v, fields)
                     r_queue.put(jtvec)
                 elif op == 5:
                     # do jtj_diag
                     sim_key, w, f_key = args
                     sim = _cached_items[sim_key]
-                    fields = _cached_items[f_key]
+                    check_model(sim_key)
+                    fields = get_fields(f_key)
                     jtj = sim.getJtJdiag(sim.model, w, fields)
                     r_queue.put(jtj)
             except Exception as err:
@@ -269,6 +298,14 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             for p in self._sim_processes:
                 p.store_model(self._model)
 
+    def _get_results(self):
+        """Wait for the results of all processes, and raise the first error."""
+        results = [p.result() for p in self._sim_processes]
+        for result in results:
+            if isinstance(result, Exception):
+                raise result
+        return results
+
     def fields(self, m):
         """Create fields for every simulation.
 
@@ -299,9 +336,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
         for p, field in zip(self._sim_processes, f):
             p.start_dpred(field)
 
-        d_pred = []
-        for p in self._sim_processes:
-            d_pred.append(p.result())
+        d_pred = self._get_results()
         return np.concatenate(d_pred)
 
     def Jvec(self, m, v, f=None):
@@ -310,9 +345,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             f = self.fields(m)
         for p, field in zip(self._sim_processes, f):
             p.start_j_vec(v, field)
-        j_vec = []
-        for p in self._sim_processes:
-            j_vec.append(p.result())
+        j_vec = self._get_results()
         return np.concatenate(j_vec)
 
     def Jtvec(self, m, v, f=None):
@@ -323,9 +356,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             chunk_v = v[self._data_offsets[i] : self._data_offsets[i + 1]]
             p.start_jt_vec(chunk_v, field)
 
-        jt_vec = []
-        for p in self._sim_processes:
-            jt_vec.append(p.result())
+        jt_vec = self._get_results()
         return np.sum(jt_vec, axis=0)
 
     def getJtJdiag(self, m, W=None, f=None):
@@ -337,9 +368,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             for i, (p, field) in enumerate(zip(self._sim_processes, f)):
                 chunk_w = W[self._data_offsets[i] : self._data_offsets[i + 1]]
                 p.start_jtj_diag(chunk_w, field)
-            jtj_diag = []
-            for p in self._sim_processes:
-                jtj_diag.append(p.result())
+            jtj_diag = self._get_results()
             self._jtjdiag = np.sum(jtj_diag, axis=0)
         return self._jtjdiag
 
@@ -382,10 +411,7 @@ class MultiprocessingSumMetaSimulation(
         for p, field in zip(self._sim_processes, f):
             p.start_dpred(field)
 
-        d_pred = 0
-        for p in self._sim_processes:
-            d_pred += p.result()
-        return d_pred
+        return np.sum(self._get_results(), axis=0)
 
     def Jvec(self, m, v, f=None):
         self.model = m
@@ -393,9 +419,7 @@ class MultiprocessingSumMetaSimulation(
             f = self.fields(m)
         for p, field in zip(self._sim_processes, f):
             p.start_j_vec(v, field)
-        j_vec = []
-        for p in self._sim_processes:
-            j_vec.append(p.result())
+        j_vec = self._get_results()
         return np.sum(j_vec, axis=0)
 
     def Jtvec(self, m, v, f=None):
@@ -405,9 +429,7 @@ class MultiprocessingSumMetaSimulation(
         for p, field in zip(self._sim_processes, f):
             p.start_jt_vec(v, field)
 
-        jt_vec = []
-        for p in self._sim_processes:
-            jt_vec.append(p.result())
+        jt_vec = self._get_results()
         return np.sum(jt_vec, axis=0)
 
     def getJtJdiag(self, m, W=None, f=None):
@@ -418,9 +440,7 @@ class MultiprocessingSumMetaSimulation(
                 f = self.fields(m)
             for p, field in zip(self._sim_processes, f):
                 p.start_jtj_diag(W, field)
-            jtj_diag = []
-            for p in self._sim_processes:
-                jtj_diag.append(p.result())
+            jtj_diag = self._get_results()
             self._jtjdiag = np.sum(jtj_diag, axis=0)
         return self._jtjdiag
 
-- 
2.43.0


From b3d67351311f10eca121df671af87a000361d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 087/154] fix: data of kept fields of composite simulations

---
 simpeg/meta/multiprocessing.py | 4 ++++
 simpeg/meta/simulation.py      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index dcd52a0..efd6156 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -333,6 +333,8 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
         for p, field in zip(self._sim_processes, f):
             p.start_dpred(field)
 
@@ -408,6 +410,8 @@ class MultiprocessingSumMetaSimulation(
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
         for p, field in zip(self._sim_processes, f):
             p.start_dpred(field)
 
diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index 84719d8..716d4bb 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -221,6 +221,8 @@ class MetaSimulation(BaseSimulation):
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
         d_pred = []
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
             if self._repeat_sim:
@@ -391,6 +393,8 @@ class SumMetaSimulation(MetaSimulation):
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
         d_pred = 0
         for sim, field in zip(self.simulations, f):
             d_pred += sim.dpred(m=sim.model, f=field)
-- 
2.43.0


From 11a643842ef001552cba9ae2912f03e35e47f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 088/154] fix: threads of a dask worker share the repeated
 simulation

---
 simpeg/meta/dask_sim.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/simpeg/meta/dask_sim.py b/simpeg/meta/dask_sim.py
index b36073c..174abc3 100644
--- a/simpeg/meta/dask_sim.py
+++ b/simpeg/meta/dask_sim.py
@@ -11,6 +11,7 @@ from dask.distributed import Future
 from .simulation import MetaSimulation, SumMetaSimulation
 import scipy.sparse as sp
 from operator import add
+from threading import Lock
 import warnings
 
 from dask.base import normalize_token
@@ -26,20 +27,27 @@ def _normalize_simulation(sim):
     return sim._uuid.hex
 
 
+# The threads of a worker share the simulation that is repeated for many models,
+# only one of them can use it at a time.
+_repeated_sim_lock = Lock()
+
+
 def _store_model(mapping, sim, model):
     sim.model = mapping * model
 
 
 def _calc_fields(mapping, sim, model, apply_map=False):
     if apply_map and model is not None:
-        return sim.fields(m=mapping @ model)
+        with _repeated_sim_lock:
+            return sim.fields(m=mapping @ model)
     else:
         return sim.fields(m=sim.model)
 
 
 def _calc_dpred(mapping, sim, model, field, apply_map=False):
     if apply_map and model is not None:
-        return sim.dpred(m=mapping @ model)
+        with _repeated_sim_lock:
+            return sim.dpred(m=mapping @ model)
     else:
         return sim.dpred(m=sim.model, f=field)
 
@@ -47,14 +55,16 @@ def _calc_dpred(mapping, sim, model, field, apply_map=False):
 def _j_vec_op(mapping, sim, model, field, v, apply_map=False):
     sim_v = mapping.deriv(model) @ v
     if apply_map:
-        return sim.Jvec(mapping @ model, sim_v, f=field)
+        with _repeated_sim_lock:
+            return sim.Jvec(mapping @ model, sim_v, f=field)
     else:
         return sim.Jvec(sim.model, sim_v, f=field)
 
 
 def _jt_vec_op(mapping, sim, model, field, v, apply_map=False):
     if apply_map:
-        jtv = sim.Jtvec(mapping @ model, v, f=field)
+        with _repeated_sim_lock:
+            jtv = sim.Jtvec(mapping @ model, v, f=field)
     else:
         jtv = sim.Jtvec(sim.model, v, f=field)
     return mapping.deriv(model).T @ jtv
@@ -63,7 +73,8 @@ def _jt_vec_op(mapping, sim, model, field, v, apply_map=False):
 def _get_jtj_diag(mapping, sim, model, field, w, apply_map=False):
     w = sp.diags(w)
     if apply_map:
-        jtj = sim.getJtJdiag(mapping @ model, w, f=field)
+        with _repeated_sim_lock:
+            jtj = sim.getJtJdiag(mapping @ model, w, f=field)
     else:
         jtj = sim.getJtJdiag(sim.model, w, f=field)
     sim_jtj = sp.diags(np.sqrt(jtj))
@@ -392,6 +403,8 @@ class DaskMetaSimulation(MetaSimulation):
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
         client = self.client
         m_future = self._m_as_future
         dpred = []
@@ -554,6 +567,8 @@ class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
         client = self.client
         dpred = []
         for sim, worker, field in zip(self.simulations, self._workers, f):
-- 
2.43.0


From 6c1d4a26a08fc5b4418a64b228855b4fdc2f6418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:08 +0000
Subject: [PATCH 089/154] fix: Gram diagonals of potential field simulations
 with dask ignore changed weights

---
 .../potential_fields/gravity/simulation.py    |  8 ++----
 .../potential_fields/magnetics/simulation.py  | 25 ++++++++-----------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/simpeg/dask/potential_fields/gravity/simulation.py b/simpeg/dask/potential_fields/gravity/simulation.py
index 884ec33..29f3bcd 100644
--- a/simpeg/dask/potential_fields/gravity/simulation.py
+++ b/simpeg/dask/potential_fields/gravity/simulation.py
@@ -11,14 +11,10 @@ def dask_getJtJdiag(self, m, W=None, f=None):
     self.model = m
 
     if W is None:
-        W = np.ones(self.nD)
+        W = np.ones(self.survey.nD)
     else:
         W = W.diagonal()
-    if getattr(self, "_gtg_diagonal", None) is None:
-        diag = ((W[:, None] * self.G) ** 2).sum(axis=0).compute()
-        self._gtg_diagonal = diag
-    else:
-        diag = self._gtg_diagonal
+    diag = np.asarray(((W[:, None] * self.G) ** 2).sum(axis=0))
     return mkvc((sdiag(np.sqrt(diag)) @ self.rhoDeriv).power(2).sum(axis=0))
 
 
diff --git a/simpeg/dask/potential_fields/magnetics/simulation.py b/simpeg/dask/potential_fields/magnetics/simulation.py
index e76f59e..3b7d794 100644
--- a/simpeg/dask/potential_fields/magnetics/simulation.py
+++ b/simpeg/dask/potential_fields/magnetics/simulation.py
@@ -11,23 +11,20 @@ def dask_getJtJdiag(self, m, W=None, f=None):
     self.model = m
 
     if W is None:
-        W = np.ones(self.nD)
+        n_data = self.survey.nD
+        W = np.ones(n_data // 3 if self.is_amplitude_data else n_data)
     else:
         W = W.diagonal()
-    if getattr(self, "_gtg_diagonal", None) is None:
-        if not self.is_amplitude_data:
-            diag = ((W[:, None] * self.G) ** 2).sum(axis=0).compute()
-        else:
-            ampDeriv = self.ampDeriv
-            J = (
-                ampDeriv[0, :, None] * self.G[::3]
-                + ampDeriv[1, :, None] * self.G[1::3]
-                + ampDeriv[2, :, None] * self.G[2::3]
-            )
-            diag = ((W[:, None] * J) ** 2).sum(axis=0).compute()
-        self._gtg_diagonal = diag
+    if not self.is_amplitude_data:
+        J = self.G
     else:
-        diag = self._gtg_diagonal
+        ampDeriv = self.ampDeriv
+        J = (
+            ampDeriv[0, :, None] * self.G[::3]
+            + ampDeriv[1, :, None] * self.G[1::3]
+            + ampDeriv[2, :, None] * self.G[2::3]
+        )
+    diag = np.asarray(((W[:, None] * J) ** 2).sum(axis=0))
 
     return mkvc((sdiag(np.sqrt(diag)) @ self.chiDeriv).power(2).sum(axis=0))
 
-- 
2.43.0


From b0b17d74e4038071568897f8f93be808805bb35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:08 +0000
Subject: [PATCH 090/154] fix: Gram diagonals and sensitivities of DC and IP
 simulations with dask keep those of another model

---
 .../static/induced_polarization/simulation.py | 16 ++++++------
 .../static/resistivity/simulation.py          | 25 +++++++++----------
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/simpeg/dask/electromagnetics/static/induced_polarization/simulation.py b/simpeg/dask/electromagnetics/static/induced_polarization/simulation.py
index 466a926..1cc4843 100644
--- a/simpeg/dask/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/dask/electromagnetics/static/induced_polarization/simulation.py
@@ -9,16 +9,14 @@ def dask_getJtJdiag(self, m, W=None, f=None):
     """
     Return the diagonal of JtJ
     """
-    if getattr(self, "_gtgdiag", None) is None:
-        J = self.getJ(m, f=f)
-        # Need to check if multiplying weights makes sense
-        if W is None:
-            W = self._scale
-        else:
-            W = self._scale * W.diagonal()
-        self._gtgdiag = da.einsum("i,ij,ij->j", W**2, J, J).compute()
+    J = self.getJ(m, f=f)
+    # Need to check if multiplying weights makes sense
+    if W is None:
+        W = self._scale
+    else:
+        W = self._scale * W.diagonal()
 
-    return self._gtgdiag
+    return da.einsum("i,ij,ij->j", W**2, J, J).compute()
 
 
 Sim.getJtJdiag = dask_getJtJdiag
diff --git a/simpeg/dask/electromagnetics/static/resistivity/simulation.py b/simpeg/dask/electromagnetics/static/resistivity/simulation.py
index 20f5c42..f3f8b40 100644
--- a/simpeg/dask/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/dask/electromagnetics/static/resistivity/simulation.py
@@ -14,6 +14,7 @@ def dask_getJ(self, m, f=None):
     """
     Generate Full sensitivity matrix
     """
+    self.model = m
 
     if getattr(self, "_Jmatrix", None) is not None:
         return self._Jmatrix
@@ -37,6 +38,7 @@ def dask_getJ(self, m, f=None):
             pass
 
     m_size = self.model.size
+    Ainv = self._get_Ainv()
     count = 0
     for source in self.survey.source_list:
         u_source = f[source, self._solutionType]
@@ -57,9 +59,9 @@ def dask_getJ(self, m, f=None):
             )
             ind = 0
             for _ in range(n_block_col):
-                ATinvdf_duT = da.asarray(
-                    self.Ainv * df_duT[:, ind : ind + n_col]
-                ).rechunk((nrows, n_col))
+                ATinvdf_duT = da.asarray(Ainv * df_duT[:, ind : ind + n_col]).rechunk(
+                    (nrows, n_col)
+                )
 
                 dA_dmT = self.getADeriv(u_source, ATinvdf_duT, adjoint=True)
 
@@ -102,7 +104,8 @@ def dask_getJ(self, m, f=None):
         self.survey.nD, m_size, self.max_chunk_size
     )
     self._Jmatrix = da.vstack(dask_arrays).rechunk((rowChunk, colChunk))
-    self.Ainv.clean()
+    Ainv.clean()
+    self.Ainv = None
 
     return self._Jmatrix
 
@@ -114,15 +117,11 @@ def dask_getJtJdiag(self, m, W=None, f=None):
     """
     Return the diagonal of JtJ
     """
-    if getattr(self, "_gtgdiag", None) is None:
-        # Need to check if multiplying weights makes sense
-        if W is None:
-            self._gtgdiag = da.sum(self.getJ(m, f=f) ** 2, axis=0).compute()
-        else:
-            w = da.from_array(W.diagonal())[:, None]
-            self._gtgdiag = da.sum((w * self.getJ(m, f=f)) ** 2, axis=0).compute()
-
-    return self._gtgdiag
+    J = self.getJ(m, f=f)
+    if W is not None:
+        J = W.diagonal()[:, None] * J
+
+    return np.asarray((J**2).sum(axis=0))
 
 
 Sim.getJtJdiag = dask_getJtJdiag
-- 
2.43.0


From 6fe3f573653c603adefbc24bd3d0f558db283040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:08 +0000
Subject: [PATCH 091/154] fix: stored potential field kernel of another shape
 used with dask

---
 simpeg/dask/potential_fields/base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/simpeg/dask/potential_fields/base.py b/simpeg/dask/potential_fields/base.py
index 7e5c96c..72631af 100644
--- a/simpeg/dask/potential_fields/base.py
+++ b/simpeg/dask/potential_fields/base.py
@@ -57,13 +57,13 @@ def dask_linear_operator(self):
                 # Check that loaded kernel matches supplied data and mesh
                 print("Zarr file detected with same shape and chunksize ... re-loading")
                 return kernel
-        else:
-            print("Writing Zarr file to disk")
-            with ProgressBar():
-                print("Saving kernel to zarr: " + sens_name)
-                kernel = array.to_zarr(
-                    stack, sens_name, compute=True, return_stored=True, overwrite=True
-                )
+
+        print("Writing Zarr file to disk")
+        with ProgressBar():
+            print("Saving kernel to zarr: " + sens_name)
+            kernel = array.to_zarr(
+                stack, sens_name, compute=True, return_stored=True, overwrite=True
+            )
     elif forward_only:
         with ProgressBar():
             print("Forward calculation: ")
-- 
2.43.0


From fe0d5e4c1eb6f48641728f30812c3b3b23ccdd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:08 +0000
Subject: [PATCH 092/154] fix: dask composite simulations when one worker holds
 every simulation

---
 simpeg/meta/dask_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/meta/dask_sim.py b/simpeg/meta/dask_sim.py
index 174abc3..7a9d7ae 100644
--- a/simpeg/meta/dask_sim.py
+++ b/simpeg/meta/dask_sim.py
@@ -146,7 +146,7 @@ def _validate_type_or_future_of_type(
         worker_assignments = []
         for obj in objects:
             workers = who[obj.key]
-            n_assigned = len(objects)
+            n_assigned = len(objects) + 1
             assigned = None
             for worker in workers:
                 n_test = workers_assign_count[worker]
-- 
2.43.0


From eb547b2d6780ccfb8a91e3f87bf0ea9d0b60ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 093/154] fix: layered simulations cannot be sent to worker
 processes

---
 simpeg/electromagnetics/base_1d.py                          | 5 +++--
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 81dbe5c..ecfdea5 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -22,6 +22,8 @@ import libdlf
 
 __all__ = ["BaseEM1DSimulation"]
 
+HankelFilter = namedtuple("HankelFilter", "base j0 j1")
+
 HANKEL_FILTERS = {}
 for filter_name in libdlf.hankel.__all__:
     hankel_filter = getattr(libdlf.hankel, filter_name)
@@ -168,8 +170,7 @@ class BaseEM1DSimulation(BaseSimulation):
             "hankel_filter", value, list(HANKEL_FILTERS.keys())
         )
         base, j0, j1 = HANKEL_FILTERS[self._hankel_filter]()
-        hank = namedtuple("HankelFilter", "base j0 j1")
-        self._fhtfilt = hank(base, j0, j1)
+        self._fhtfilt = HankelFilter(base, j0, j1)
         self._coefficients_set = False
 
     _hankel_pts_per_dec = 0  # Default: Standard DLF
diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index ec5fa29..8c156bf 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -12,6 +12,8 @@ from .survey import Survey
 from ....utils import validate_type, validate_string
 from scipy.interpolate import InterpolatedUnivariateSpline as iuSpline
 
+HankelFilter = namedtuple("HankelFilter", "base j0")
+
 HANKEL_FILTERS = {}
 for filter_name in libdlf.hankel.__all__:
     hankel_filter = getattr(libdlf.hankel, filter_name)
@@ -197,8 +199,7 @@ class Simulation1DLayers(BaseSimulation):
             "hankel_filter", value, list(HANKEL_FILTERS.keys())
         )
         filt = HANKEL_FILTERS[self._hankel_filter]()
-        hank = namedtuple("HankelFilter", "base j0")
-        self._fhtfilt = hank(filt[0], filt[1])
+        self._fhtfilt = HankelFilter(filt[0], filt[1])
         self._coefficients_set = False
 
     @property
-- 
2.43.0


From 256dbf73e5fed26913f6d38ae59905f4d4e2c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:31 +0000
Subject: [PATCH 094/154] fix: composite simulations wait forever for
 simulations that cannot be sent to worker processes

---
 simpeg/meta/multiprocessing.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index efd6156..5a8afdd 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -1,4 +1,5 @@
 from multiprocessing import Process, Queue, cpu_count
+from multiprocessing.reduction import ForkingPickler
 from simpeg.meta import MetaSimulation, SumMetaSimulation, RepeatedSimulation
 from simpeg.props import HasModel
 import uuid
@@ -145,6 +146,13 @@ class _SimulationProcess(Process):
 
     def set_sim(self, sim):
         self._check_closed()
+        try:
+            # The queue itself drops objects that it cannot send,
+            # and the process would then never answer.
+            ForkingPickler.dumps(sim)
+        except Exception:
+            self.join()
+            raise
         self.task_queue.put(("set_sim", (sim,)))
         key = self.result_queue.get()
         future = SimpleFuture(key, self)
@@ -282,9 +290,14 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             )
             chunk_nd.append(sim_chunk.survey.nD)
             p = _SimulationProcess()
-            processes.append(p)
             p.start()
-            p.set_sim(sim_chunk)
+            try:
+                p.set_sim(sim_chunk)
+            except Exception:
+                for started in processes:
+                    started.join()
+                raise
+            processes.append(p)
             i_start = i_end
 
         self._sim_processes = processes
@@ -498,9 +511,14 @@ class MultiprocessingRepeatedSimulation(
             )
             chunk_nd.append(sim_chunk.survey.nD)
             p = _SimulationProcess()
-            processes.append(p)
             p.start()
-            p.set_sim(sim_chunk)
+            try:
+                p.set_sim(sim_chunk)
+            except Exception:
+                for started in processes:
+                    started.join()
+                raise
+            processes.append(p)
             i_start = i_end
 
         self._data_offsets = np.cumsum(np.r_[0, chunk_nd])
-- 
2.43.0


From 3a6c1ea76a93aeb28817d7a0ba68528268c34676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:49 +0000
Subject: [PATCH 095/154] fix: VTEM waveform is not zero before it starts

---
 simpeg/electromagnetics/time_domain/sources.py  | 4 +++-
 simpeg/electromagnetics/utils/waveform_utils.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index 8ff1578..cff4eb0 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -472,7 +472,9 @@ class VTEMWaveform(BaseWaveform):
         self._ramp_on_rate = value
 
     def eval(self, time):  # noqa: A003
-        if time <= self.peak_time:
+        if time < 0.0:
+            return 0.0
+        elif time <= self.peak_time:
             return (1.0 - np.exp(-self.ramp_on_rate * time / self.peak_time)) / (
                 1.0 - np.exp(-self.ramp_on_rate)
             )
diff --git a/simpeg/electromagnetics/utils/waveform_utils.py b/simpeg/electromagnetics/utils/waveform_utils.py
index 8120777..acf765a 100644
--- a/simpeg/electromagnetics/utils/waveform_utils.py
+++ b/simpeg/electromagnetics/utils/waveform_utils.py
@@ -65,7 +65,8 @@ def VTEMFun(time, ta, tb, a):
         The waveform evaluated at all input times
     """
     out = np.zeros(time.size)
-    out[time <= ta] = (1 - np.exp(-a * time[time <= ta] / ta)) / (1 - np.exp(-a))
+    ramp_on = (time >= 0.0) & (time <= ta)
+    out[ramp_on] = (1 - np.exp(-a * time[ramp_on] / ta)) / (1 - np.exp(-a))
     out[(time > ta) & (time < tb)] = (
         -1 / (tb - ta) * (time[(time > ta) & (time < tb)] - tb)
     )
-- 
2.43.0


From fbf82b6188bfa3d78c813581466d55232eb13dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:56 +0000
Subject: [PATCH 096/154] fix: decays of viscous remanent waveforms with
 negative or initial currents

---
 .../viscous_remanent_magnetization/waveforms.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
index 8b862f3..b953653 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
@@ -425,8 +425,8 @@ class ArbitraryDiscrete(BaseVRMWaveform):
         """
         fieldType = validate_string("fieldType", fieldType, ["h", "b", "dhdt", "dbdt"])
 
-        k = np.where(self.I_wave > 1e-10)
-        j = k[0][0] - 1
+        k = np.where(np.abs(self.I_wave) > 1e-10)
+        j = max(k[0][0] - 1, 0)
         k = k[0][-1] + 1
 
         twave = self.t_wave[j : k + 1]
@@ -517,8 +517,8 @@ class ArbitraryPiecewise(ArbitraryDiscrete):
                 % np.max(self.t_wave)
             )
 
-        k = np.where(self.I_wave > 1e-10)
-        j = k[0][0] - 1
+        k = np.where(np.abs(self.I_wave) > 1e-10)
+        j = max(k[0][0] - 1, 0)
         k = k[0][-1] + 1
 
         tvec = self.t_wave[j : k + 1]
-- 
2.43.0


From fc3d5592f45dc930cad7d9e742d50a3d725590ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 097/154] fix: decay derivatives of viscous remanent waveforms
 that do not start or end at zero

---
 .../viscous_remanent_magnetization/waveforms.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
index b953653..b8ec163 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
@@ -457,7 +457,7 @@ class ArbitraryDiscrete(BaseVRMWaveform):
             for tt in range(0, len(eta)):
                 eta[tt] = np.sum(
                     ((g[1:] - g[0:-1]) / dt) * np.log(1 + dt / (times[tt] - tvec))
-                    - (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
+                    + (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
                     * (1 / (times[tt] - tvec + dt) - 1 / (times[tt] - tvec))
                 )
 
@@ -540,7 +540,7 @@ class ArbitraryPiecewise(ArbitraryDiscrete):
             for tt in range(0, len(eta)):
                 eta[tt] = np.sum(
                     ((g[1:] - g[0:-1]) / dt) * np.log(1 + dt / (times[tt] - tvec))
-                    - (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
+                    + (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
                     * (1 / (times[tt] - tvec + dt) - 1 / (times[tt] - tvec))
                 )
 
-- 
2.43.0


From f2a3f10ddfd5a940bb42e14c4931dc3375b5b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:50 +0000
Subject: [PATCH 098/154] fix: sampling of short viscous remanent waveforms
 with late times

---
 .../viscous_remanent_magnetization/waveforms.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
index b8ec163..82ebe19 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
@@ -434,8 +434,8 @@ class ArbitraryDiscrete(BaseVRMWaveform):
 
         n_pts = int(np.ceil(25 * (np.max(twave) - np.min(twave)) / np.min(times)))
 
-        if n_pts > 25000:
-            n_pts = 25000
+        # Late times need few points, but the shape of the waveform does not
+        n_pts = min(max(n_pts, 1000), 25000)
 
         dt = (np.max(twave) - np.min(twave)) / np.float64(n_pts)
         tvec = np.linspace(np.min(twave), np.max(twave), n_pts + 1)
-- 
2.43.0


From 6f04a7ecaeaa1216790184d5bb26ddd072054324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:02 +0000
Subject: [PATCH 099/154] fix: physical properties accept values that are not
 numbers

---
 simpeg/props.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simpeg/props.py b/simpeg/props.py
index f492b7d..00aeb5b 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -177,6 +177,10 @@ class PhysicalProperty:
                 value = validate_ndarray_with_shape(
                     scope.name, value, shape=scope.shape, dtype=scope.dtype
                 )
+                if value.dtype.kind not in "biufc":
+                    raise TypeError(
+                        f"{scope.name!r} must be numeric, got {value.dtype} values"
+                    )
                 if value.ndim == 0:
                     value = value.item()
 
-- 
2.43.0


From 50c2a75e62e697156f62525a52d97a32383b2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:33 +0000
Subject: [PATCH 100/154] fix: travel times of rays outside the mesh

---
 simpeg/seismic/straight_ray_tomography/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/seismic/straight_ray_tomography/simulation.py b/simpeg/seismic/straight_ray_tomography/simulation.py
index a372a06..1f01bd4 100644
--- a/simpeg/seismic/straight_ray_tomography/simulation.py
+++ b/simpeg/seismic/straight_ray_tomography/simulation.py
@@ -76,7 +76,7 @@ def _lineintegral(M, Tx, Rx):
         D[1] == 0 and O[1] in M.nodes_y[1:-1]
     ):
         V = [0.5 * v for v in V]
-    inds = sub2ind(M.vnC, np.array([I, J]).T)
+    inds = sub2ind(M.vnC, np.array([I, J], dtype=int).T)
     return inds, V
 
 
-- 
2.43.0


From 196fea63ba80409a8cb1f060cfeaa7b01cfd7dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 101/154] fix: magnetic field locations of 1D impedances

---
 simpeg/electromagnetics/natural_source/receivers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/receivers.py b/simpeg/electromagnetics/natural_source/receivers.py
index 33ec328..924a876 100644
--- a/simpeg/electromagnetics/natural_source/receivers.py
+++ b/simpeg/electromagnetics/natural_source/receivers.py
@@ -319,8 +319,8 @@ class Impedance(_ElectricAndMagneticReceiver):
             if mesh.dim == 1:
                 e_loc = f.aliasFields["e"][1]
                 h_loc = f.aliasFields["h"][1]
-                PE = self.getP(mesh, e_loc)
-                PH = self.getP(mesh, h_loc)
+                PE = self.getP(mesh, e_loc, 0)
+                PH = self.getP(mesh, h_loc, 1)
             elif mesh.dim == 2:
                 if self.orientation == "xy":
                     PE = self.getP(mesh, "Ex", 0)
@@ -369,8 +369,8 @@ class Impedance(_ElectricAndMagneticReceiver):
             if mesh.dim == 1:
                 e_loc = f.aliasFields["e"][1]
                 h_loc = f.aliasFields["h"][1]
-                PE = self.getP(mesh, e_loc)
-                PH = self.getP(mesh, h_loc)
+                PE = self.getP(mesh, e_loc, 0)
+                PH = self.getP(mesh, h_loc, 1)
             elif mesh.dim == 2:
                 if self.orientation == "xy":
                     PE = self.getP(mesh, "Ex", 0)
-- 
2.43.0


From 278009da68cbaa7aa7cb6ecde62904d93b24a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 102/154] fix: complex impedances of the recursive simulation

---
 simpeg/electromagnetics/natural_source/simulation_1d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/natural_source/simulation_1d.py b/simpeg/electromagnetics/natural_source/simulation_1d.py
index 0e2931c..c6375ad 100644
--- a/simpeg/electromagnetics/natural_source/simulation_1d.py
+++ b/simpeg/electromagnetics/natural_source/simulation_1d.py
@@ -238,7 +238,9 @@ class Simulation1DRecursive(BaseSimulation):
         for src in self.survey.source_list:
             i_freq = np.searchsorted(self.survey.frequencies, src.frequency)
             for rx in src.receiver_list:
-                if rx.component == "real":
+                if rx.component == "complex":
+                    d.append(Z[i_freq])
+                elif rx.component == "real":
                     d.append(np.real(Z[i_freq]))
                 elif rx.component == "imag":
                     d.append(np.imag(Z[i_freq]))
-- 
2.43.0


From 74271183597d3564548f4d384ddda12e83180795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:59 +0000
Subject: [PATCH 103/154] fix: natural source fields with fixed permeabilities
 or uniform resistivities

---
 .../electromagnetics/natural_source/fields.py | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/fields.py b/simpeg/electromagnetics/natural_source/fields.py
index c347fe6..aa173f9 100644
--- a/simpeg/electromagnetics/natural_source/fields.py
+++ b/simpeg/electromagnetics/natural_source/fields.py
@@ -13,6 +13,11 @@ from ..utils import omega
 # ##############
 
 
+def _as_column(prop):
+    """Return a physical property so that it multiplies the columns of a field."""
+    return prop if np.ndim(prop) == 0 else prop[:, None]
+
+
 class _1DField:
     def field_deriv_m(self, field, freq, src, v, adjoint=False):
         sim = self.simulation
@@ -58,10 +63,7 @@ class _EField(_1DField):
     def _h(self, eSolution, source_list):
         omegas = np.array([omega(src.frequency) for src in source_list])
         e = self._e(eSolution, source_list)
-        if self.simulation.muiMap is not None:
-            mui = self.simulation.mui[:, None]
-        else:
-            mui = self.simulation.mui
+        mui = _as_column(self.simulation.mui)
         v = mui * (self._C * e)
         return v / (1j * omegas)
 
@@ -69,10 +71,7 @@ class _EField(_1DField):
         if du_dm_v.ndim == 1:
             du_dm_v = du_dm_v[:, None]
         om = omega(src.frequency)
-        if self.simulation.muiMap is not None:
-            mui = self.simulation.mui[:, None]
-        else:
-            mui = self.simulation.mui
+        mui = _as_column(self.simulation.mui)
         if adjoint:
             y = self._eDeriv_u(src, self._C.T * (mui * du_dm_v), adjoint=adjoint)
             return np.squeeze(y) / (1j * om)
@@ -110,7 +109,7 @@ class _HField(_1DField):
         return Zero()
 
     def _e(self, hSolution, source_list):
-        return self.simulation.rho[:, None] * (
+        return _as_column(self.simulation.rho) * (
             self._C * self._h(hSolution, source_list)
         )
 
@@ -119,10 +118,12 @@ class _HField(_1DField):
             du_dm_v = du_dm_v[:, None]
         if adjoint:
             y = self._hDeriv_u(
-                src, self._C.T * (self.simulation.rho[:, None] * du_dm_v), adjoint=True
+                src,
+                self._C.T * (_as_column(self.simulation.rho) * du_dm_v),
+                adjoint=True,
             )
             return np.squeeze(y)
-        y = self.simulation.rho[:, None] * (
+        y = _as_column(self.simulation.rho) * (
             self._C @ (self._hDeriv_u(src, du_dm_v, adjoint=False))
         )
         return np.squeeze(y)
-- 
2.43.0


From 4f3d4e02a44485cc141fe44b565aebc52b84f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:56 +0000
Subject: [PATCH 104/154] fix: values of layers that are not listed from top to
 bottom

---
 simpeg/utils/model_builder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simpeg/utils/model_builder.py b/simpeg/utils/model_builder.py
index d677803..07819df 100644
--- a/simpeg/utils/model_builder.py
+++ b/simpeg/utils/model_builder.py
@@ -442,9 +442,8 @@ def create_layers_model(cell_centers, layer_tops, layer_values):
 
     # start from bottom up
     if not descending:
-        zprop = np.hstack([mkvc(layer_tops, 2), mkvc(layer_values, 2)])
-        zprop.sort(axis=0)
-        layer_tops, layer_values = zprop[::-1, 0], zprop[::-1, 1]
+        order = np.argsort(mkvc(layer_tops))[::-1]
+        layer_tops, layer_values = mkvc(layer_tops)[order], mkvc(layer_values)[order]
 
     # put in vector form
     layer_tops, layer_values = mkvc(layer_tops), mkvc(layer_values)
-- 
2.43.0


From eea13cc91cdbbe7604b31272faf645f9eacfd630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:56 +0000
Subject: [PATCH 105/154] fix: two layer model is upside down

---
 simpeg/utils/model_builder.py | 33 ++++-----------------------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/simpeg/utils/model_builder.py b/simpeg/utils/model_builder.py
index 07819df..fd4b939 100644
--- a/simpeg/utils/model_builder.py
+++ b/simpeg/utils/model_builder.py
@@ -342,36 +342,11 @@ def create_2_layer_model(cell_centers, depth, top_value=1.0, bottom_value=0.0):
     except TypeError:
         pass
 
-    sigma = np.zeros(cell_centers.shape[0]) + bottom_value
+    sigma = np.zeros(cell_centers.shape[0]) + top_value
 
-    dim = np.size(cell_centers[0, :])
-
-    p0 = np.zeros(dim)
-    p1 = np.zeros(dim)
-
-    # Identify 1st cell centered reference point
-    p0[0] = cell_centers[0, 0]
-    if dim > 1:
-        p0[1] = cell_centers[0, 1]
-    if dim > 2:
-        p0[2] = cell_centers[0, 2]
-
-    # Identify the last cell-centered reference point
-    p1[0] = cell_centers[-1, 0]
-    if dim > 1:
-        p1[1] = cell_centers[-1, 1]
-    if dim > 2:
-        p1[2] = cell_centers[-1, 2]
-
-    # The depth is always defined on the last one.
-    p1[len(p1) - 1] -= depth
-
-    # Hide BreakingChangeWarning coming from get_indices_block
-    with warnings.catch_warnings():
-        warnings.simplefilter(action="ignore", category=BreakingChangeWarning)
-        ind = get_indices_block(p0, p1, cell_centers)
-
-    sigma[ind] = top_value
+    # The depth is always defined on the last coordinate.
+    z = cell_centers[:, -1]
+    sigma[z <= z.max() - depth] = bottom_value
 
     return mkvc(sigma)
 
-- 
2.43.0


From 0a159ac971720d2c6f8bb32305e5a45c70452f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:26 +0000
Subject: [PATCH 106/154] fix: admittances of fields with cross components

---
 .../natural_source/receivers.py               | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/receivers.py b/simpeg/electromagnetics/natural_source/receivers.py
index 924a876..3db545a 100644
--- a/simpeg/electromagnetics/natural_source/receivers.py
+++ b/simpeg/electromagnetics/natural_source/receivers.py
@@ -998,9 +998,9 @@ class Admittance(_ElectricAndMagneticReceiver):
             h = self.getP(mesh, "F" + self.orientation[0], 1) @ h
 
             if self.orientation[1] == "x":
-                top = h[:, 0] * ey[:, 1] - h[:, 1] * ex[:, 1]
+                top = h[:, 0] * ey[:, 1] - h[:, 1] * ey[:, 0]
             else:
-                top = -h[:, 0] * ey[:, 0] + h[:, 1] * ex[:, 0]
+                top = -h[:, 0] * ex[:, 1] + h[:, 1] * ex[:, 0]
 
             bot = ex[:, 0] * ey[:, 1] - ex[:, 1] * ey[:, 0]
 
@@ -1041,13 +1041,13 @@ class Admittance(_ElectricAndMagneticReceiver):
             h = Ph @ h
 
             if self.orientation[1] == "x":
-                p_ind = 1
+                eo = ey
                 fact = 1.0
             else:
-                p_ind = 0
+                eo = ex
                 fact = -1.0
 
-            top = fact * (h[:, 0] * ey[:, p_ind] - h[:, 1] * ex[:, p_ind])
+            top = fact * (h[:, 0] * eo[:, 1] - h[:, 1] * eo[:, 0])
             bot = ex[:, 0] * ey[:, 1] - ex[:, 1] * ey[:, 0]
             adm = top / bot
 
@@ -1069,9 +1069,11 @@ class Admittance(_ElectricAndMagneticReceiver):
 
                 ex_v = np.c_[ey[:, 1], -ey[:, 0]] * b_v[..., None]  # terms dex in bot
                 ey_v = np.c_[-ex[:, 1], ex[:, 0]] * b_v[..., None]  # terms dey in bot
-                ex_v[..., p_ind] -= h[:, 1] * a_v  # add terms dex in top
-                ey_v[..., p_ind] += h[:, 0] * a_v  # add terms dey in top
-                h_v = np.c_[ey[:, p_ind], -ex[:, p_ind]] * a_v[..., None]  # h in top
+                # add terms dex or dey in top
+                eo_v = ey_v if self.orientation[1] == "x" else ex_v
+                eo_v[..., 0] -= h[:, 1] * a_v
+                eo_v[..., 1] += h[:, 0] * a_v
+                h_v = np.c_[eo[:, 1], -eo[:, 0]] * a_v[..., None]  # h in top
 
                 if v.ndim == 2:
                     # collapse into a long list of n_d vectors
@@ -1103,11 +1105,12 @@ class Admittance(_ElectricAndMagneticReceiver):
             dex_v = Pex @ de_v
             dey_v = Pey @ de_v
 
+            deo_v = dey_v if self.orientation[1] == "x" else dex_v
             dtop_v = fact * (
-                h[:, 0] * dey_v[:, p_ind]
-                + dh_v[:, 0] * ey[:, p_ind]
-                - h[:, 1] * dex_v[:, p_ind]
-                - dh_v[:, 1] * ex[:, p_ind]
+                h[:, 0] * deo_v[:, 1]
+                + dh_v[:, 0] * eo[:, 1]
+                - h[:, 1] * deo_v[:, 0]
+                - dh_v[:, 1] * eo[:, 0]
             )
             dbot_v = (
                 ex[:, 0] * dey_v[:, 1]
-- 
2.43.0


From a172ffbf3a09f4a4c1e23d5e125f11fd2edcdc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:17 +0000
Subject: [PATCH 107/154] fix: proportions of nonlinear mixtures when cells are
 not of unit volume

---
 simpeg/utils/pgi_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/utils/pgi_utils.py b/simpeg/utils/pgi_utils.py
index 7478c2a..503c785 100644
--- a/simpeg/utils/pgi_utils.py
+++ b/simpeg/utils/pgi_utils.py
@@ -1368,7 +1368,7 @@ class GaussianMixtureWithNonlinearRelationships(WeightedGaussianMixture):
         weights, means, covariances = self._estimate_gaussian_parameters(
             X, resp, self.reg_covar, self.covariance_type
         )
-        weights /= n_samples
+        weights /= n_samples * np.mean(self.cell_volumes)
 
         self.weights_ = weights if self.weights_init is None else self.weights_init
         self.means_ = means if self.means_init is None else self.means_init
@@ -1590,7 +1590,7 @@ class GaussianMixtureWithNonlinearRelationships(WeightedGaussianMixture):
         ) = self._estimate_gaussian_parameters(
             X, np.exp(log_resp), self.reg_covar, self.covariance_type
         )
-        self.weights_ /= n_samples
+        self.weights_ /= n_samples * np.mean(self.cell_volumes)
         self.precisions_cholesky_ = _compute_precision_cholesky(
             self.covariances_, self.covariance_type
         )
@@ -1702,7 +1702,7 @@ class GaussianMixtureWithNonlinearRelationshipsWithPrior(GaussianMixtureWithPrio
         weights, means, covariances = self._estimate_gaussian_parameters(
             X, resp, self.reg_covar, self.covariance_type
         )
-        weights /= n_samples
+        weights /= n_samples * np.mean(self.cell_volumes)
 
         self.weights_ = weights if self.weights_init is None else self.weights_init
         self.means_ = means if self.means_init is None else self.means_init
@@ -1845,7 +1845,7 @@ class GaussianMixtureWithNonlinearRelationshipsWithPrior(GaussianMixtureWithPrio
         ) = self._estimate_gaussian_parameters(
             X, np.exp(log_resp), self.reg_covar, self.covariance_type
         )
-        self.weights_ /= n_samples
+        self.weights_ /= n_samples * np.mean(self.cell_volumes)
         self.precisions_cholesky_ = _compute_precision_cholesky(
             self.covariances_, self.covariance_type
         )
-- 
2.43.0


From d142cfe7819a34b898b68cfc305c3097fde7a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:18 +0000
Subject: [PATCH 108/154] fix: initial precisions of nonlinear mixtures with
 diagonal or spherical covariances

---
 simpeg/utils/pgi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/utils/pgi_utils.py b/simpeg/utils/pgi_utils.py
index 503c785..6f68962 100644
--- a/simpeg/utils/pgi_utils.py
+++ b/simpeg/utils/pgi_utils.py
@@ -1390,7 +1390,7 @@ class GaussianMixtureWithNonlinearRelationships(WeightedGaussianMixture):
                 self.precisions_init, lower=True
             )
         else:
-            self.precisions_cholesky_ = self.precisions_init
+            self.precisions_cholesky_ = np.sqrt(self.precisions_init)
 
     @classmethod
     def _estimate_log_gaussian_prob(
@@ -1724,7 +1724,7 @@ class GaussianMixtureWithNonlinearRelationshipsWithPrior(GaussianMixtureWithPrio
                 self.precisions_init, lower=True
             )
         else:
-            self.precisions_cholesky_ = self.precisions_init
+            self.precisions_cholesky_ = np.sqrt(self.precisions_init)
 
     @classmethod
     def _estimate_log_gaussian_prob(
-- 
2.43.0


From 8d25fbc68fb00bb094f0a5d327f2762d9f2d975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:18 +0000
Subject: [PATCH 109/154] fix: tied covariances of nonlinear mixtures

---
 simpeg/utils/pgi_utils.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/simpeg/utils/pgi_utils.py b/simpeg/utils/pgi_utils.py
index 6f68962..c756566 100644
--- a/simpeg/utils/pgi_utils.py
+++ b/simpeg/utils/pgi_utils.py
@@ -1486,11 +1486,19 @@ class GaussianMixtureWithNonlinearRelationships(WeightedGaussianMixture):
             means[k] = (
                 np.dot(respVol.T, self.cluster_mapping[k] * X) / nk[:, np.newaxis]
             )[k]
+        if covariance_type == "tied":
+            # average the covariances of the components
+            covariances = np.zeros_like(covariances)
+            for k in range(means.shape[0]):
+                covariances += (nk[k] / nk.sum()) * _estimate_gaussian_covariances_full(
+                    respVol, self.cluster_mapping[k] * X, nk, means, reg_covar
+                )[k]
+            return nk, means, covariances
+
         for k in range(means.shape[0]):
             covariances[k] = (
                 {
                     "full": _estimate_gaussian_covariances_full,
-                    "tied": self._estimate_gaussian_covariances_tied,
                     "diag": _estimate_gaussian_covariances_diag,
                     "spherical": _estimate_gaussian_covariances_spherical,
                 }[covariance_type](
@@ -1811,11 +1819,19 @@ class GaussianMixtureWithNonlinearRelationshipsWithPrior(GaussianMixtureWithPrio
             means[k] = (
                 np.dot(respVol.T, self.cluster_mapping[k] * X) / nk[:, np.newaxis]
             )[k]
+        if covariance_type == "tied":
+            # average the covariances of the components
+            covariances = np.zeros_like(covariances)
+            for k in range(means.shape[0]):
+                covariances += (nk[k] / nk.sum()) * _estimate_gaussian_covariances_full(
+                    respVol, self.cluster_mapping[k] * X, nk, means, reg_covar
+                )[k]
+            return nk, means, covariances
+
         for k in range(means.shape[0]):
             covariances[k] = (
                 {
                     "full": _estimate_gaussian_covariances_full,
-                    "tied": self._estimate_gaussian_covariances_tied,
                     "diag": _estimate_gaussian_covariances_diag,
                     "spherical": _estimate_gaussian_covariances_spherical,
                 }[covariance_type](
-- 
2.43.0


From a8ff416feff00c0e754e272dae536120a8c5a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:19 +0000
Subject: [PATCH 110/154] fix: prior type of nonlinear mixtures is ignored

---
 simpeg/utils/pgi_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/utils/pgi_utils.py b/simpeg/utils/pgi_utils.py
index c756566..a48cb8a 100644
--- a/simpeg/utils/pgi_utils.py
+++ b/simpeg/utils/pgi_utils.py
@@ -1677,6 +1677,7 @@ class GaussianMixtureWithNonlinearRelationshipsWithPrior(GaussianMixtureWithPrio
             kappa=kappa,
             nu=nu,
             zeta=zeta,
+            prior_type=prior_type,
             init_params=init_params,
             max_iter=max_iter,
             means_init=means_init,
-- 
2.43.0


From 7b4bad832551800940d228bea940271158a398d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:19 +0000
Subject: [PATCH 111/154] fix: clusters are not ordered as those of the
 reference mixture

---
 simpeg/utils/pgi_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simpeg/utils/pgi_utils.py b/simpeg/utils/pgi_utils.py
index a48cb8a..7598b3f 100644
--- a/simpeg/utils/pgi_utils.py
+++ b/simpeg/utils/pgi_utils.py
@@ -997,6 +997,8 @@ class GaussianMixtureWithPrior(WeightedGaussianMixture):
             indx.append(idrefmean)
             idx_ref[idrefmean] = False
 
+        # cluster i takes the place of the reference cluster indx[i]
+        indx = np.argsort(indx)
         self.means_ = self.means_[indx].reshape(self.means_.shape)
 
         if self.weights_.ndim == 1:
-- 
2.43.0


From ef8935137d22449c9d6d4b89be563546af8db886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:20 +0000
Subject: [PATCH 112/154] fix: covariances of mixtures with conjugate priors
 are not symmetric

---
 simpeg/utils/pgi_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/simpeg/utils/pgi_utils.py b/simpeg/utils/pgi_utils.py
index 7598b3f..861e523 100644
--- a/simpeg/utils/pgi_utils.py
+++ b/simpeg/utils/pgi_utils.py
@@ -1055,10 +1055,16 @@ class GaussianMixtureWithPrior(WeightedGaussianMixture):
 
         for k in range(self.n_components):
             if self.prior_type == "full":
-                smu = (self.kappa[k] * weights_[k]) * (
-                    (self.gmmref.means_[k] - self.means_[k]) ** 2.0
+                smu = (self.kappa[k] * weights_[k]) ** 0.5 * (
+                    self.gmmref.means_[k] - self.means_[k]
                 )
-                smu /= self.kappa[k] + weights_[k]
+                smu /= (self.kappa[k] + weights_[k]) ** 0.5
+                if self.covariance_type == "full":
+                    smu = np.outer(smu, smu)
+                elif self.covariance_type == "diag":
+                    smu = smu**2
+                else:
+                    smu = np.mean(smu**2)
                 smu *= 1.0 / (weights_[k] + ref_weights_[k] * self.nu[k])
 
             self.means_[k] = (1.0 / (weights_[k] + ref_weights_[k] * self.kappa[k])) * (
-- 
2.43.0


From 532483f59df3b22e3ab8b5baaf915b1f445f6141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:20 +0000
Subject: [PATCH 113/154] fix: hydraulic conductivity on the faces of 2D and 3D
 flow simulations

---
 simpeg/flow/richards/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/flow/richards/simulation.py b/simpeg/flow/richards/simulation.py
index da7554d..b157498 100644
--- a/simpeg/flow/richards/simulation.py
+++ b/simpeg/flow/richards/simulation.py
@@ -277,7 +277,7 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
         DIV = self.mesh.face_divergence
         GRAD = self.mesh.cell_gradient
         BC = self.mesh.cell_gradient_BC
-        AV = self.mesh.aveF2CC.T
+        AV = self.mesh.dim * self.mesh.aveF2CC.T
         Dz = self.Dz
 
         dT = self.water_retention.derivU(hn)
@@ -327,7 +327,7 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
         DIV = self.mesh.face_divergence
         GRAD = self.mesh.cell_gradient
         BC = self.mesh.cell_gradient_BC
-        AV = self.mesh.aveF2CC.T
+        AV = self.mesh.dim * self.mesh.aveF2CC.T
         Dz = self.Dz
 
         T = self.water_retention(h)
-- 
2.43.0


From c56fdb8410b7fe0259f87f94d5bf1150c90a3d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:47 +0000
Subject: [PATCH 114/154] fix: estimate_diagonal without a number of vectors

---
 simpeg/utils/mat_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/utils/mat_utils.py b/simpeg/utils/mat_utils.py
index 67b5d83..083bcdc 100644
--- a/simpeg/utils/mat_utils.py
+++ b/simpeg/utils/mat_utils.py
@@ -68,7 +68,7 @@ def estimate_diagonal(matrix_arg, n, k=None, approach="Probing"):
             return A.dot(v)
 
     if k is None:
-        k = np.floor(n / 10.0)
+        k = max(n // 10, 1)
 
     if approach.upper() == "ONES":
 
-- 
2.43.0


From aa503e0d7c0d8691d545189db79f9334da0c38ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:48 +0000
Subject: [PATCH 115/154] fix: estimate_diagonal changes the global random
 state

---
 simpeg/utils/mat_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simpeg/utils/mat_utils.py b/simpeg/utils/mat_utils.py
index 083bcdc..fc17912 100644
--- a/simpeg/utils/mat_utils.py
+++ b/simpeg/utils/mat_utils.py
@@ -70,10 +70,12 @@ def estimate_diagonal(matrix_arg, n, k=None, approach="Probing"):
     if k is None:
         k = max(n // 10, 1)
 
+    rng = np.random.default_rng()
+
     if approach.upper() == "ONES":
 
         def getv(n, i=None):
-            v = np.random.randn(n)
+            v = rng.standard_normal(n)
             v[v < 0] = -1.0
             v[v >= 0] = 1.0
             return v
@@ -81,7 +83,7 @@ def estimate_diagonal(matrix_arg, n, k=None, approach="Probing"):
     elif approach.upper() == "RANDOM":
 
         def getv(n, i=None):
-            return np.random.randn(n)
+            return rng.standard_normal(n)
 
     else:  # if approach == 'Probing':
 
-- 
2.43.0


From a3e5c2963fbc90b829c9588c76ab7133a74ad90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:44 +0000
Subject: [PATCH 116/154] fix: bounded numbers accept nan

---
 simpeg/utils/code_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/utils/code_utils.py b/simpeg/utils/code_utils.py
index ceb8ac6..018efd0 100644
--- a/simpeg/utils/code_utils.py
+++ b/simpeg/utils/code_utils.py
@@ -924,7 +924,8 @@ def validate_float(
         value_range_string = value_range_string + ")"
 
     if (
-        (inclusive_min and var < min_val)
+        (np.isnan(var) and (np.isfinite(min_val) or np.isfinite(max_val)))
+        or (inclusive_min and var < min_val)
         or (not inclusive_min and var <= min_val)
         or (inclusive_max and var > max_val)
         or (not inclusive_max and var >= max_val)
-- 
2.43.0


From ddc73778b4a517a153dd15237bbd89b472ef3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:45 +0000
Subject: [PATCH 117/154] fix: directions of zero length are accepted

---
 simpeg/utils/code_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simpeg/utils/code_utils.py b/simpeg/utils/code_utils.py
index 018efd0..100de37 100644
--- a/simpeg/utils/code_utils.py
+++ b/simpeg/utils/code_utils.py
@@ -1227,8 +1227,10 @@ def validate_direction(property_name, obj, dim=3):
 
     # Normalize the orientation
     # do this to make a copy of the input
-    obj = obj / np.linalg.norm(obj)
-    return obj
+    norm = np.linalg.norm(obj)
+    if norm == 0:
+        raise ValueError(f"{property_name!r} must be a non-zero vector.")
+    return obj / norm
 
 
 def validate_active_indices(property_name, index_arr, n_cells):
-- 
2.43.0


From e78438c831104c5f4149b6d9e52da45c795de12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:45 +0000
Subject: [PATCH 118/154] fix: lists of decimals are truncated where integers
 are expected

---
 simpeg/utils/code_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simpeg/utils/code_utils.py b/simpeg/utils/code_utils.py
index 100de37..bd5bfe5 100644
--- a/simpeg/utils/code_utils.py
+++ b/simpeg/utils/code_utils.py
@@ -1062,7 +1062,11 @@ def validate_ndarray_with_shape(property_name, var, shape=None, dtype=float):
             if isinstance(var, np.ndarray):
                 var = var.astype(dtype, casting="safe", copy=False)
             else:
-                var = np.asarray(var, dtype=dtype)
+                new_var = np.asarray(var, dtype=dtype)
+                # casting to an integer must not discard decimals
+                if new_var.dtype.kind in "iu" and not np.array_equal(new_var, var):
+                    raise TypeError("values are not integers")
+                var = new_var
             bad_type = False
             break
         except (TypeError, ValueError) as err:
-- 
2.43.0


From 0b47c96a9decc3a727d2d32e88cce2f5c80aee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:20 +0000
Subject: [PATCH 119/154] fix: core depth of DC input and output returns
 another attribute

---
 simpeg/electromagnetics/static/resistivity/IODC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/IODC.py b/simpeg/electromagnetics/static/resistivity/IODC.py
index 912bccc..e6807b6 100644
--- a/simpeg/electromagnetics/static/resistivity/IODC.py
+++ b/simpeg/electromagnetics/static/resistivity/IODC.py
@@ -605,7 +605,7 @@ class IO:
         -------
         float
         """
-        return self._pad_rate_z
+        return self._corezlength
 
     @corezlength.setter
     def corezlength(self, value):
-- 
2.43.0


From 31aa7499ec3f5e4b16559b9a89212a00cb7af81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:21 +0000
Subject: [PATCH 120/154] fix: gradient type of sparse regularizations is not
 kept in canonical form

---
 simpeg/regularization/sparse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/regularization/sparse.py b/simpeg/regularization/sparse.py
index 14c6aa9..5eced88 100644
--- a/simpeg/regularization/sparse.py
+++ b/simpeg/regularization/sparse.py
@@ -967,6 +967,7 @@ class Sparse(WeightedLeastSquares):
 
     @gradient_type.setter
     def gradient_type(self, value: str):
+        value = validate_string("gradient_type", value, ["total", "components"])
         for fct in self.objfcts:
             if hasattr(fct, "gradient_type"):
                 fct.gradient_type = value
-- 
2.43.0


From 2d1ab548168293d07e5ba7f7fd4419d7f589317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:01 +0000
Subject: [PATCH 121/154] fix: multipliers of regularization terms accept nan

---
 simpeg/regularization/base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 68096dd..7c9a5f6 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -1918,7 +1918,7 @@ class WeightedLeastSquares(ComboObjectiveFunction):
             value = float(value)
         except (ValueError, TypeError):
             raise TypeError(f"alpha_s must be a real number, saw type{type(value)}")
-        if value < 0:
+        if not value >= 0:
             raise ValueError(f"alpha_s must be non-negative, not {value}")
         self._alpha_s = value
 
@@ -1939,7 +1939,7 @@ class WeightedLeastSquares(ComboObjectiveFunction):
             value = float(value)
         except (ValueError, TypeError):
             raise TypeError(f"alpha_x must be a real number, saw type{type(value)}")
-        if value < 0:
+        if not value >= 0:
             raise ValueError(f"alpha_x must be non-negative, not {value}")
         self._alpha_x = value
 
@@ -1960,7 +1960,7 @@ class WeightedLeastSquares(ComboObjectiveFunction):
             value = float(value)
         except (ValueError, TypeError):
             raise TypeError(f"alpha_y must be a real number, saw type{type(value)}")
-        if value < 0:
+        if not value >= 0:
             raise ValueError(f"alpha_y must be non-negative, not {value}")
         self._alpha_y = value
 
@@ -1981,7 +1981,7 @@ class WeightedLeastSquares(ComboObjectiveFunction):
             value = float(value)
         except (ValueError, TypeError):
             raise TypeError(f"alpha_z must be a real number, saw type{type(value)}")
-        if value < 0:
+        if not value >= 0:
             raise ValueError(f"alpha_z must be non-negative, not {value}")
         self._alpha_z = value
 
@@ -2004,7 +2004,7 @@ class WeightedLeastSquares(ComboObjectiveFunction):
             value = float(value)
         except (ValueError, TypeError):
             raise TypeError(f"alpha_xx must be a real number, saw type{type(value)}")
-        if value < 0:
+        if not value >= 0:
             raise ValueError(f"alpha_xx must be non-negative, not {value}")
         self._alpha_xx = value
 
@@ -2027,7 +2027,7 @@ class WeightedLeastSquares(ComboObjectiveFunction):
             value = float(value)
         except (ValueError, TypeError):
             raise TypeError(f"alpha_yy must be a real number, saw type{type(value)}")
-        if value < 0:
+        if not value >= 0:
             raise ValueError(f"alpha_yy must be non-negative, not {value}")
         self._alpha_yy = value
 
@@ -2050,7 +2050,7 @@ class WeightedLeastSquares(ComboObjectiveFunction):
             value = float(value)
         except (ValueError, TypeError):
             raise TypeError(f"alpha_zz must be a real number, saw type{type(value)}")
-        if value < 0:
+        if not value >= 0:
             raise ValueError(f"alpha_zz must be non-negative, not {value}")
         self._alpha_zz = value
 
-- 
2.43.0


From 3d8ca7fc20a6e6de483fcea7d23a853f424c2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:02 +0000
Subject: [PATCH 122/154] fix: negative length scales are taken as positive

---
 simpeg/regularization/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 7c9a5f6..c26520b 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -2082,6 +2082,8 @@ class WeightedLeastSquares(ComboObjectiveFunction):
             raise TypeError(
                 f"length_scale_x must be a real number, saw type{type(value)}"
             )
+        if not value >= 0:
+            raise ValueError(f"length_scale_x must be non-negative, not {value}")
         self.alpha_x = (value * self.regularization_mesh.base_length) ** 2
 
     @property
@@ -2112,6 +2114,8 @@ class WeightedLeastSquares(ComboObjectiveFunction):
             raise TypeError(
                 f"length_scale_y must be a real number, saw type{type(value)}"
             )
+        if not value >= 0:
+            raise ValueError(f"length_scale_y must be non-negative, not {value}")
         self.alpha_y = (value * self.regularization_mesh.base_length) ** 2
 
     @property
@@ -2142,6 +2146,8 @@ class WeightedLeastSquares(ComboObjectiveFunction):
             raise TypeError(
                 f"length_scale_z must be a real number, saw type{type(value)}"
             )
+        if not value >= 0:
+            raise ValueError(f"length_scale_z must be non-negative, not {value}")
         self.alpha_z = (value * self.regularization_mesh.base_length) ** 2
 
     @property
-- 
2.43.0


From 07148ef1a6a1060f020886b80fc2674f2ae449f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:38 +0000
Subject: [PATCH 123/154] fix: physical properties only reject text, existing
 tests give them other objects

---
 simpeg/props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index 00aeb5b..b0a61bb 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -177,7 +177,7 @@ class PhysicalProperty:
                 value = validate_ndarray_with_shape(
                     scope.name, value, shape=scope.shape, dtype=scope.dtype
                 )
-                if value.dtype.kind not in "biufc":
+                if value.dtype.kind in "SU":
                     raise TypeError(
                         f"{scope.name!r} must be numeric, got {value.dtype} values"
                     )
-- 
2.43.0


From a812f5bd19a48aeb609697c9c0eba9634a7e98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:15 +0000
Subject: [PATCH 124/154] fix: 2D cell centered resistivity with Neumann
 conditions no longer shifts a diagonal entry

---
 simpeg/electromagnetics/static/resistivity/simulation_2d.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index 3f0b63a..84f300d 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -540,8 +540,6 @@ class Simulation2DCellCentered(BaseDCSimulation2D):
         MfRhoI = self.MfRhoI
         # Get resistivity rho
         A = D * MfRhoI * G + ky**2 * self.MccSigma
-        if self.bc_type == "Neumann":
-            A[0, 0] = A[0, 0] + 1.0
         return A
 
     def getADeriv(self, ky, u, v, adjoint=False):
-- 
2.43.0


From 0bbd0a0928fb12aeba52722b077fba51fd60e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:15 +0000
Subject: [PATCH 125/154] fix: 1D resistivity recomputes its coefficients for a
 new survey

---
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index 8c156bf..6bc2556 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -172,6 +172,8 @@ class Simulation1DLayers(BaseSimulation):
         if value is not None:
             value = validate_type("survey", value, Survey, cast=False)
         self._survey = value
+        # the coefficients depend on the locations of the survey
+        self._coefficients_set = False
 
     @property
     def storeJ(self):
-- 
2.43.0


From 72f84328352b5fe83a05e761e5e68e14ce5b29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:41 +0000
Subject: [PATCH 126/154] fix: layered electromagnetic simulations recompute
 their coefficients for a new survey

---
 simpeg/electromagnetics/frequency_domain/simulation_1d.py | 2 ++
 simpeg/electromagnetics/time_domain/simulation_1d.py      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation_1d.py b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
index 5080876..7cf8cf1 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
@@ -39,6 +39,8 @@ class Simulation1DLayered(BaseEM1DSimulation):
         if value is not None:
             value = validate_type("survey", value, Survey, cast=False)
         self._survey = value
+        # the coefficients depend on the survey
+        self._coefficients_set = False
 
     def get_coefficients(self):
         if self._coefficients_set is False:
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index c811801..618194a 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -55,6 +55,8 @@ class Simulation1DLayered(BaseEM1DSimulation):
         if value is not None:
             value = validate_type("survey", value, Survey, cast=False)
         self._survey = value
+        # the coefficients depend on the survey
+        self._coefficients_set = False
 
     @property
     def time_filter(self):
-- 
2.43.0


From 9a1c44742eadedf83d2c3f26beba175db188577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:30 +0000
Subject: [PATCH 127/154] fix: the primary field of a circular loop in layered
 simulations is that of the loop

---
 .../frequency_domain/sources.py                | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index 74027a5..8a8a38f 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -482,6 +482,10 @@ class MagDipole(BaseFDEMSrc):
         out[np.isnan(out)] = 0
         return out
 
+    def _free_space_h(self, locations):
+        """Magnetic field of the source in free space."""
+        return self._dipole.magnetic_field(locations)
+
     def bPrimary(self, simulation):
         """Compute primary magnetic flux density.
 
@@ -542,14 +546,13 @@ class MagDipole(BaseFDEMSrc):
         """
         if simulation._formulation == "1D":
             if getattr(self, "_1d_h", None) is None:
-                dipole = self._dipole
                 out = []
                 for rx in self.receiver_list:
                     if rx.use_source_receiver_offset:
                         locs = rx.locations + self.location
                     else:
                         locs = rx.locations
-                    h_rx = dipole.magnetic_field(locs)
+                    h_rx = self._free_space_h(locs)
                     out.append(h_rx @ rx.orientation)
                 self._1d_h = out
             return self._1d_h
@@ -905,6 +908,17 @@ class CircularLoop(MagDipole):
         out[np.isnan(out)] = 0
         return self.n_turns * out
 
+    def _free_space_h(self, locations):
+        """Magnetic field of the source in free space."""
+        loop = CircularLoopWholeSpace(
+            mu=self.mu,
+            location=self.location,
+            orientation=self.orientation,
+            radius=self.radius,
+            current=self.current,
+        )
+        return self.n_turns * loop.magnetic_field(locations)
+
 
 class PrimSecSigma(BaseFDEMSrc):
     def __init__(
-- 
2.43.0


From 1b3955be0d5564b40f6b5cfa4c97753af7def2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:30 +0000
Subject: [PATCH 128/154] fix: the moment of a frequency domain loop has the
 sign of its current

---
 simpeg/electromagnetics/frequency_domain/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index 8a8a38f..d855d3b 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -869,7 +869,7 @@ class CircularLoop(MagDipole):
         float
             Dipole moment of the loop
         """
-        return np.pi * self.radius**2 * np.abs(self.current) * self.n_turns
+        return np.pi * self.radius**2 * self.current * self.n_turns
 
     @moment.setter
     def moment(self, value):
-- 
2.43.0


From 803265b5f7b956909fcfb79fff19e7f0ac2aafed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:12 +0000
Subject: [PATCH 129/154] fix: the primary magnetic field of MagDipole_Bfield
 in the HJ formulation is the analytic field, not its curl

---
 simpeg/electromagnetics/frequency_domain/sources.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index d855d3b..e80c062 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -761,6 +761,18 @@ class MagDipole_Bfield(MagDipole):
 
         return mkvc(b)
 
+    def hPrimary(self, simulation):
+        """The primary magnetic field from the analytic solution for
+        magnetic fields from a dipole
+
+        :param BaseFDEMSimulation simulation: FDEM simulation
+        :rtype: numpy.ndarray
+        :return: primary magnetic field
+        """
+        if simulation._formulation == "HJ":
+            return 1.0 / self.mu * self.bPrimary(simulation)
+        return super().hPrimary(simulation)
+
 
 class CircularLoop(MagDipole):
     """
-- 
2.43.0


From 83a56e0e2b80bc110186338805602af70561db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:34 +0000
Subject: [PATCH 130/154] fix: wires in the last cells of a tensor mesh lie
 inside the mesh

---
 simpeg/electromagnetics/utils/current_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/utils/current_utils.py b/simpeg/electromagnetics/utils/current_utils.py
index 698c7a4..472762a 100644
--- a/simpeg/electromagnetics/utils/current_utils.py
+++ b/simpeg/electromagnetics/utils/current_utils.py
@@ -183,9 +183,9 @@ def _poly_line_source_tens(mesh, locs):
         ax = px[ip]
         ay = py[ip]
         az = pz[ip]
-        ix = _findlast(np.logical_and(ax >= x[: nx - 1], ax <= x[1:nx]))
-        iy = _findlast(np.logical_and(ay >= y[: ny - 1], ay <= y[1:ny]))
-        iz = _findlast(np.logical_and(az >= z[: nz - 1], az <= z[1:nz]))
+        ix = _findlast(np.logical_and(ax >= x[:nx], ax <= x[1 : nx + 1]))
+        iy = _findlast(np.logical_and(ay >= y[:ny], ay <= y[1 : ny + 1]))
+        iz = _findlast(np.logical_and(az >= z[:nz], az <= z[1 : nz + 1]))
 
         if (ix < 0) or (iy < 0) or (iz < 0):
             msg = "Polygon vertex (%.1f, %.1f, %.1f) is outside the mesh"
@@ -238,9 +238,9 @@ def _poly_line_source_tens(mesh, locs):
 
             # locate cell id
 
-            ix = _findlast(np.logical_and(cx >= x[: nx - 1], cx <= x[1:nx]))
-            iy = _findlast(np.logical_and(cy >= y[: ny - 1], cy <= y[1:ny]))
-            iz = _findlast(np.logical_and(cz >= z[: nz - 1], cz <= z[1:nz]))
+            ix = _findlast(np.logical_and(cx >= x[:nx], cx <= x[1 : nx + 1]))
+            iy = _findlast(np.logical_and(cy >= y[:ny], cy <= y[1 : ny + 1]))
+            iz = _findlast(np.logical_and(cz >= z[:nz], cz <= z[1 : nz + 1]))
 
             # local coordinates
             hxloc = hx[ix]
-- 
2.43.0


From 7bf3eb3a66bdc61474fed17676209fb22fe0267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:23 +0000
Subject: [PATCH 131/154] fix: every vertex of a wire has to lie inside the
 tree mesh

---
 simpeg/electromagnetics/utils/current_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/utils/current_utils.py b/simpeg/electromagnetics/utils/current_utils.py
index 472762a..6ef3830 100644
--- a/simpeg/electromagnetics/utils/current_utils.py
+++ b/simpeg/electromagnetics/utils/current_utils.py
@@ -298,11 +298,12 @@ def _poly_line_source_tree(mesh, locs):
     nP = len(points) - 1
     x0 = mesh.x0
     dim = mesh.dim
-    for _ in range(nP + 1):
-        A = points[0]
+    for A in points:
         xF = np.array([mesh.nodes_x[-1], mesh.nodes_y[-1], mesh.nodes_z[-1]])
         if np.any(A < x0) or np.any(A > xF):
-            msg = "Polygon vertex ({.1f}, {.1f}, {.1f}) is outside the mesh".format(*A)
+            msg = "Polygon vertex ({:.1f}, {:.1f}, {:.1f}) is outside the mesh".format(
+                *A
+            )
             raise ValueError(msg)
 
     # Loop over each line segment
-- 
2.43.0


From 372e941d0b6e2d6aa8765cc8e1768c6298e28037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:52 +0000
Subject: [PATCH 132/154] fix: the electrode tables of a DC survey follow its
 current sources and receivers

---
 .../static/resistivity/survey.py                 | 16 ++++------------
 .../static/utils/static_utils.py                 | 10 ++++++----
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/survey.py b/simpeg/electromagnetics/static/resistivity/survey.py
index 2d540a1..99dcdb6 100644
--- a/simpeg/electromagnetics/static/resistivity/survey.py
+++ b/simpeg/electromagnetics/static/resistivity/survey.py
@@ -84,8 +84,7 @@ class Survey(BaseSurvey):
         (nD, dim) numpy.ndarray
             Locations of the positive (+) current electrodes in the survey
         """
-        if getattr(self, "_locations_a", None) is None:
-            self._set_abmn_locations()
+        self._set_abmn_locations()
         return self._locations_a
 
     @property
@@ -98,8 +97,7 @@ class Survey(BaseSurvey):
         (nD, dim) numpy.ndarray
             Locations of the negative (-) current electrodes in the survey
         """
-        if getattr(self, "_locations_b", None) is None:
-            self._set_abmn_locations()
+        self._set_abmn_locations()
         return self._locations_b
 
     @property
@@ -112,8 +110,7 @@ class Survey(BaseSurvey):
         (nD, dim) numpy.ndarray
             Locations of the positive (+) potential electrodes in the survey
         """
-        if getattr(self, "_locations_m", None) is None:
-            self._set_abmn_locations()
+        self._set_abmn_locations()
         return self._locations_m
 
     @property
@@ -126,8 +123,7 @@ class Survey(BaseSurvey):
         (nD, dim) numpy.ndarray
             Locations of the negative (-) potential electrodes in the survey
         """
-        if getattr(self, "_locations_n", None) is None:
-            self._set_abmn_locations()
+        self._set_abmn_locations()
         return self._locations_n
 
     @property
@@ -353,10 +349,6 @@ class Survey(BaseSurvey):
                     else:
                         rx.locations = [m_locs, n_locs]
                     ind = end
-            self._locations_a = a_shifted
-            self._locations_b = b_shifted
-            self._locations_m = m_shifted
-            self._locations_n = n_shifted
 
         elif self.survey_geometry == "borehole":
             raise Exception("Not implemented yet for borehole survey_geometry")
diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index 9ded6a3..0905503 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -1913,12 +1913,14 @@ def gen_3d_survey_from_2d_lines(
     survey_3d = dc.Survey(source_list)
     IO_3d = dc.IO()
 
-    survey_3d.locations_a[:, 1] += src_offset_y
-    survey_3d.locations_b[:, 1] += src_offset_y
+    locations_a = survey_3d.locations_a
+    locations_b = survey_3d.locations_b
+    locations_a[:, 1] += src_offset_y
+    locations_b[:, 1] += src_offset_y
 
     survey_3d = IO_3d.from_abmn_locations_to_survey(
-        survey_3d.locations_a,
-        survey_3d.locations_b,
+        locations_a,
+        locations_b,
         survey_3d.locations_m,
         survey_3d.locations_n,
         survey_type,
-- 
2.43.0


From 1ee40ecaf51f349d818062c2905d560483cff546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 133/154] fix: MultiTargetMisfits takes the weights into
 account in its petrophysical target when asked to

---
 simpeg/directives/_directives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index a12bdf1..8a3fc98 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -1506,7 +1506,7 @@ class MultiTargetMisfits(InversionDirective):
                 len(self.pgi_smallness.gmm.cell_volumes)
             )
             self.phi_ms_star = self.pgi_smallness(
-                mkvc(samples), externalW=self.WeightsInTarget
+                mkvc(samples), external_weights=self.WeightsInTarget
             )
 
             self._CLtarget = self.chiSmall * self.phi_ms_star
@@ -1524,7 +1524,7 @@ class MultiTargetMisfits(InversionDirective):
 
     @property
     def CLnormalizedConstant(self):
-        if ~self.WeightsInTarget:
+        if not self.WeightsInTarget:
             return 1.0
         elif np.any(self.smallness == -1):
             return np.sum(
-- 
2.43.0


From 6b572a16830194ff1f379f749ff1e92723b476fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:21 +0000
Subject: [PATCH 134/154] fix: PGI_AddMrefInSmooth includes the learned
 reference model in the smoothness terms

---
 simpeg/directives/_pgi_directives.py | 61 +++++-----------------------
 simpeg/objective_function.py         |  2 +-
 2 files changed, 11 insertions(+), 52 deletions(-)

diff --git a/simpeg/directives/_pgi_directives.py b/simpeg/directives/_pgi_directives.py
index 60f4488..d1351c6 100644
--- a/simpeg/directives/_pgi_directives.py
+++ b/simpeg/directives/_pgi_directives.py
@@ -366,38 +366,12 @@ class PGI_AddMrefInSmooth(InversionDirective):
             )[0][0]
             self.petrosmallness = petrosmallness
 
-            # Find the smoothness terms in a two-levels combo-regularization.
-            Smooth = []
-            for i, regobjcts in enumerate(self.reg.objfcts):
-                for j, regpart in enumerate(regobjcts.objfcts):
-                    Smooth += [
-                        [
-                            i,
-                            j,
-                            isinstance(
-                                regpart, (SmoothnessFirstOrder, SparseSmoothness)
-                            ),
-                        ]
-                    ]
-            self.Smooth = np.r_[Smooth]
-
-            self.nbr = np.sum(
-                [len(self.reg.objfcts[i].objfcts) for i in range(len(self.reg.objfcts))]
-            )
             self._regmode = 1
             self.pgi_reg = self.reg.objfcts[self.petrosmallness]
 
         else:
             self._regmode = 2
             self.pgi_reg = self.reg
-            self.nbr = len(self.reg.objfcts)
-            self.Smooth = np.r_[
-                [
-                    isinstance(regpart, (SmoothnessFirstOrder, SparseSmoothness))
-                    for regpart in self.reg.objfcts
-                ]
-            ]
-            self._regmode = 2
 
         if ~np.any(self.pgi_updategmm_class):
             self.previous_membership = self.pgi_reg.membership(self.invProb.model)
@@ -444,31 +418,16 @@ class PGI_AddMrefInSmooth(InversionDirective):
             self.reg.reference_model_in_smooth = True
             self.pgi_reg.reference_model_in_smooth = True
 
-            if self._regmode == 2:
-                for i in range(self.nbr):
-                    if self.Smooth[i]:
-                        self.reg.objfcts[i].reference_model = mkvc(
-                            self.pgi_reg.gmm.means_[self.membership]
-                        )
-                if self.verbose:
-                    print(
-                        "Add mref to Smoothness. Changes in mref happened in {} % of the cells".format(
-                            percent_diff
-                        )
-                    )
-
-            elif self._regmode == 1:
-                for i in range(self.nbr):
-                    if self.Smooth[i, 2]:
-                        idx = self.Smooth[i, :2]
-                        self.reg.objfcts[idx[0]].objfcts[idx[1]].reference_model = mkvc(
-                            self.pgi_reg.gmm.means_[self.membership]
-                        )
-                if self.verbose:
-                    print(
-                        "Add mref to Smoothness. Changes in mref happened in {} % of the cells".format(
-                            percent_diff
-                        )
+            mref = mkvc(self.pgi_reg.gmm.means_[self.membership])
+            for smoothness in self.reg.get_functions_of_type(
+                (SmoothnessFirstOrder, SparseSmoothness)
+            ):
+                smoothness.reference_model = mref
+            if self.verbose:
+                print(
+                    "Add mref to Smoothness. Changes in mref happened in {} % of the cells".format(
+                        percent_diff
                     )
+                )
 
         self.previous_membership = copy.deepcopy(self.membership)
diff --git a/simpeg/objective_function.py b/simpeg/objective_function.py
index b65a314..f749219 100644
--- a/simpeg/objective_function.py
+++ b/simpeg/objective_function.py
@@ -551,7 +551,7 @@ class ComboObjectiveFunction(BaseObjectiveFunction):
         else:
             for fct in self.objfcts:
                 if isinstance(fct, ComboObjectiveFunction):
-                    target += [fct.get_functions_of_type(fun_class)]
+                    target += fct.get_functions_of_type(fun_class)
                 elif isinstance(fct, fun_class):
                     target += [fct]
 
-- 
2.43.0


From 3184ce909422d5b50771c473e26132cdea3f6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:59 +0000
Subject: [PATCH 135/154] fix: second-order smoothness of angles divides by the
 distance between cells

---
 simpeg/regularization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index c26520b..d97ea19 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -1433,7 +1433,7 @@ class SmoothnessSecondOrder(SmoothnessFirstOrder):
         if self.units is not None and self.units.lower() == "radian":
             return self.cell_gradient.T @ (
                 utils.mat_utils.coterminal(self.cell_gradient.sign() @ dfm_dl)
-                / self.length_scales
+                / self._cell_distances
             )
 
         dfm_dl2 = self.cell_gradient @ dfm_dl
-- 
2.43.0


From fd07612377d7aa3f794137e45bf8bb843c149b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:16 +0000
Subject: [PATCH 136/154] fix: analytic electric field of a magnetic dipole
 satisfies the equations of Maxwell

---
 simpeg/electromagnetics/analytics/FDEM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/FDEM.py b/simpeg/electromagnetics/analytics/FDEM.py
index c36027f..86308e8 100644
--- a/simpeg/electromagnetics/analytics/FDEM.py
+++ b/simpeg/electromagnetics/analytics/FDEM.py
@@ -168,13 +168,13 @@ def MagneticDipoleWholeSpace(
             Fx, Fy, Fz = mu * Fx, mu * Fy, mu * Fz
 
     elif fieldType == "e":
-        front = 1j * w * mu * (1 + 1j * kr) / (4.0 * pi * r**3.0) * np.exp(-1j * kr)
+        front = 1j * w * mu * (1 + 1j * kr) / (4.0 * pi * r**2.0) * np.exp(-1j * kr)
 
-        Fx = front * (my * (dz / r) + mz * (-dy / r))
+        Fx = front * (my * (-dz / r) + mz * (dy / r))
 
-        Fy = front * (mx * (-dz / r) + mz * (dx / r))
+        Fy = front * (mx * (dz / r) + mz * (-dx / r))
 
-        Fz = front * (mx * (dy / r) + my * (-dx / r))
+        Fz = front * (mx * (-dy / r) + my * (dx / r))
 
     return Fx, Fy, Fz
 
-- 
2.43.0


From d4f1ed7ef44d0539e95121870959415f0ca7a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:17 +0000
Subject: [PATCH 137/154] fix: analytic electric field of an electric dipole
 includes displacement currents

---
 simpeg/electromagnetics/analytics/FDEM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/analytics/FDEM.py b/simpeg/electromagnetics/analytics/FDEM.py
index 86308e8..ecad88b 100644
--- a/simpeg/electromagnetics/analytics/FDEM.py
+++ b/simpeg/electromagnetics/analytics/FDEM.py
@@ -232,7 +232,8 @@ def ElectricDipoleWholeSpace(
     kr = k * r
 
     if fieldType == "e":
-        front = 1 / (4.0 * np.pi * sig * r**3) * np.exp(-1j * k * r)
+        sig_hat = sig + 1j * w * eps
+        front = 1 / (4.0 * np.pi * sig_hat * r**3) * np.exp(-1j * k * r)
         mid = -(k**2) * r**2 + 3 * 1j * k * r + 3
 
         Fx = front * (
-- 
2.43.0


From 2a491955dd9ffedf88446313da31e80405440fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:17 +0000
Subject: [PATCH 138/154] fix: sign of the wavenumber in the analytic magnetic
 field of an electric dipole

---
 simpeg/electromagnetics/analytics/FDEMDipolarfields.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
index 62f6e8d..499a7b3 100644
--- a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
+++ b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
@@ -272,11 +272,7 @@ def H_from_ElectricDipoleWholeSpace(
     k = np.sqrt(omega(f) ** 2.0 * mu * epsilon - 1j * omega(f) * mu * sig)
 
     front = (
-        current
-        * length
-        / (4.0 * np.pi * r**2)
-        * (-1j * k * r + 1)
-        * np.exp(-1j * k * r)
+        current * length / (4.0 * np.pi * r**2) * (1j * k * r + 1) * np.exp(-1j * k * r)
     )
 
     if orientation.upper() == "X":
-- 
2.43.0


From 172193b910c54cef5592afd4b9e21ad3e428b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:17 +0000
Subject: [PATCH 139/154] fix: analytic vector potential of a vertical electric
 dipole

---
 simpeg/electromagnetics/analytics/FDEMDipolarfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
index 499a7b3..afd6354 100644
--- a/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
+++ b/simpeg/electromagnetics/analytics/FDEMDipolarfields.py
@@ -361,6 +361,6 @@ def A_from_ElectricDipoleWholeSpace(
 
     elif orientation.upper() == "Z":
         Az = front * np.exp(-1j * k * r)
-        Ax = np.zeros_like(Ay)
-        Ay = np.zeros_like(Ay)
+        Ax = np.zeros_like(Az)
+        Ay = np.zeros_like(Az)
         return Ax, Ay, Az
-- 
2.43.0


From e3250a2028fd477d63553560e6fbf95e60e6c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:18 +0000
Subject: [PATCH 140/154] fix: analytic fields of a dipole in a casing use the
 permeability of the background

---
 simpeg/electromagnetics/analytics/FDEMcasing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/FDEMcasing.py b/simpeg/electromagnetics/analytics/FDEMcasing.py
index 1510a6a..c3a6f85 100644
--- a/simpeg/electromagnetics/analytics/FDEMcasing.py
+++ b/simpeg/electromagnetics/analytics/FDEMcasing.py
@@ -124,7 +124,7 @@ def getCasingEphiMagDipole(
     return (
         1j
         * omega
-        * mu
+        * mu[2]
         * _getCasingHertzMagDipoleDeriv_r(
             srcloc, obsloc, freq, sigma, a, b, mu, eps, moment
         )
@@ -158,7 +158,7 @@ def getCasingBrMagDipole(
     srcloc, obsloc, freq, sigma, a, b, mu=(mu_0, mu_0, mu_0), eps=epsilon_0, moment=1.0
 ):
     mu = np.asarray(mu)
-    return mu_0 * getCasingHrMagDipole(
+    return mu[2] * getCasingHrMagDipole(
         srcloc, obsloc, freq, sigma, a, b, mu, eps, moment
     )
 
@@ -167,6 +167,6 @@ def getCasingBzMagDipole(
     srcloc, obsloc, freq, sigma, a, b, mu=(mu_0, mu_0, mu_0), eps=epsilon_0, moment=1.0
 ):
     mu = np.asarray(mu)
-    return mu_0 * getCasingHzMagDipole(
+    return mu[2] * getCasingHzMagDipole(
         srcloc, obsloc, freq, sigma, a, b, mu, eps, moment
     )
-- 
2.43.0


From 01135348227aee2383b504222bcffea18930e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:18 +0000
Subject: [PATCH 141/154] fix: analytic magnetotelluric response of layers with
 current numpy, permeabilities and chargeable layers

---
 simpeg/electromagnetics/analytics/NSEM.py | 34 ++++++-----------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/NSEM.py b/simpeg/electromagnetics/analytics/NSEM.py
index 33a6772..c9efcf7 100644
--- a/simpeg/electromagnetics/analytics/NSEM.py
+++ b/simpeg/electromagnetics/analytics/NSEM.py
@@ -36,22 +36,13 @@ def _Tinv(h, k):
 
 # Propagate Up and Down component for a certain frequency & evaluate E and H field
 def _Propagate(f, thickness, sig, chg, taux, c, mu_r, eps_r, n):
-    if isinstance(eps_r, float):
-        epsmodel = np.ones_like(sig) * eps_r
-    else:
-        epsmodel = eps_r
-
-    if isinstance(mu_r, float):
-        mumodel = np.ones_like(sig) * mu_r
-    else:
-        epsmodel = mu_r
+    epsmodel = np.ones_like(sig) * eps_r
+    mumodel = np.ones_like(sig) * mu_r
 
-    sigcm = np.zeros_like(sig, dtype="complex_")
-    if chg == 0.0 or taux == 0.0 or c == 0.0:
+    if np.all(chg == 0.0) or np.all(taux == 0.0) or np.all(c == 0.0):
         sigcm = sig
     else:
-        for j in range(1, len(sigcm)):
-            sigcm[j] = _PCC(sig[j], chg[j], taux[j], c[j], f)
+        sigcm = _PCC(sig, chg, taux, c, f)
 
     sigcm = np.append(np.r_[0.0], sigcm)
     mu = np.append(np.r_[1.0], mumodel) * mu_0
@@ -61,8 +52,8 @@ def _Propagate(f, thickness, sig, chg, taux, c, mu_r, eps_r, n):
     K = k(f, sigcm, mu, eps)
     Z = _ImpZ(f, mu, K)
 
-    EH = np.zeros((2, n + 1), dtype="complex_")
-    UD = np.zeros((2, n + 1), dtype="complex_")
+    EH = np.zeros((2, n + 1), dtype=complex)
+    UD = np.zeros((2, n + 1), dtype=complex)
 
     UD[1, -1] = 1.0
 
@@ -121,15 +112,8 @@ def MT_LayeredEarth(
     :type eps_r: float or numpy.ndarray
     """
 
-    if isinstance(freq, float):
-        F = np.r_[freq]
-    else:
-        F = freq
-
-    if isinstance(sig, float):
-        sigmodel = np.r_[sig]
-    else:
-        sigmodel = sig
+    F = np.atleast_1d(np.asarray(freq, dtype=float))
+    sigmodel = np.atleast_1d(np.asarray(sig, dtype=float))
 
     if isinstance(thickness, float):
         if thickness == 0.0:
@@ -146,7 +130,7 @@ def MT_LayeredEarth(
 
     Res = np.zeros_like(F)
     Phase = np.zeros_like(F)
-    App_ImpZ = np.zeros_like(F, dtype="complex_")
+    App_ImpZ = np.zeros_like(F, dtype=complex)
 
     for i in range(0, len(F)):
         _, EH, _, _ = _Propagate(
-- 
2.43.0


From 5d217d3253ca5e78225cdd8216383b41ebcd8f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:18 +0000
Subject: [PATCH 142/154] fix: analytic gravity of a sphere at whole-number
 coordinates

---
 simpeg/potential_fields/gravity/analytics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/potential_fields/gravity/analytics.py b/simpeg/potential_fields/gravity/analytics.py
index e8da42d..7d5a394 100644
--- a/simpeg/potential_fields/gravity/analytics.py
+++ b/simpeg/potential_fields/gravity/analytics.py
@@ -28,7 +28,7 @@ def GravSphereFreeSpace(x, y, z, R, xc, yc, zc, rho):
 
     r = np.sqrt((rx) ** 2 + (ry) ** 2 + (rz) ** 2)
 
-    M = np.empty_like(x)  # create a vector of "Ms" if the point is outide
+    M = np.empty_like(r)  # create a vector of "Ms" if the point is outide
     M[r >= R] = R**3 * 4.0 / 3.0 * np.pi * rho  # outside points
     M[r < R] = r[r < R] ** 3 * 4.0 / 3.0 * np.pi * rho  # inside points
 
@@ -70,7 +70,7 @@ def GravityGradientSphereFreeSpace(x, y, z, R, xc, yc, zc, rho):
     r = np.sqrt(rx2 + ry2 + rz2)
     bot = r * r * r * r * r
 
-    M = np.empty_like(x)  # create a vector of "Ms" if the point is outide
+    M = np.empty_like(r)  # create a vector of "Ms" if the point is outide
     M[r >= R] = R**3 * 4.0 / 3.0 * np.pi * rho  # outside points
     M[r < R] = r[r < R] ** 3 * 4.0 / 3.0 * np.pi * rho  # inside points
 
-- 
2.43.0


From 8d69dbd87bbb70c7c7df7aab2ba8bb59e1c2ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:18 +0000
Subject: [PATCH 143/154] fix: analytic gravity gradient inside of a sphere is
 the derivative of its gravity

---
 simpeg/potential_fields/gravity/analytics.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/simpeg/potential_fields/gravity/analytics.py b/simpeg/potential_fields/gravity/analytics.py
index 7d5a394..20ebdd3 100644
--- a/simpeg/potential_fields/gravity/analytics.py
+++ b/simpeg/potential_fields/gravity/analytics.py
@@ -70,15 +70,16 @@ def GravityGradientSphereFreeSpace(x, y, z, R, xc, yc, zc, rho):
     r = np.sqrt(rx2 + ry2 + rz2)
     bot = r * r * r * r * r
 
-    M = np.empty_like(r)  # create a vector of "Ms" if the point is outide
-    M[r >= R] = R**3 * 4.0 / 3.0 * np.pi * rho  # outside points
-    M[r < R] = r[r < R] ** 3 * 4.0 / 3.0 * np.pi * rho  # inside points
+    inside = r < R
+    M = R**3 * 4.0 / 3.0 * np.pi * rho
 
     g = G * (1.0 / bot) * M * unit_conv
+    g[inside] = 0.0  # the gradient is diagonal inside of the sphere
+    diagonal = np.where(inside, -G * 4.0 / 3.0 * np.pi * rho * unit_conv, 0.0)
 
-    gxx = g * (2 * rx2 - ry2 - rz2)
-    gyy = g * (2 * ry2 - rx2 - rz2)
-    gzz = -gxx - gyy
+    gxx = g * (2 * rx2 - ry2 - rz2) + diagonal
+    gyy = g * (2 * ry2 - rx2 - rz2) + diagonal
+    gzz = g * (2 * rz2 - rx2 - ry2) + diagonal
     gxy = g * (3 * rx * ry)
     gxz = g * (3 * rx * rz)
     gyz = g * (3 * ry * rz)
-- 
2.43.0


From 5e935f60349ce9f2df2461c80f872b7eb5e16f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:19 +0000
Subject: [PATCH 144/154] fix: analytic field of a magnetic sphere at
 whole-number coordinates

---
 simpeg/potential_fields/magnetics/analytics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/potential_fields/magnetics/analytics.py b/simpeg/potential_fields/magnetics/analytics.py
index fc6f7af..bbc8fe9 100644
--- a/simpeg/potential_fields/magnetics/analytics.py
+++ b/simpeg/potential_fields/magnetics/analytics.py
@@ -335,7 +335,7 @@ def MagSphereFreeSpace(x, y, z, R, xc, yc, zc, chi, Bo):
     r = np.sqrt(rx2 + ry2 + rz2)
     bot = r * r * r * r * r
 
-    M = np.empty_like(x)  # create a vector of "Ms" if the point is outide
+    M = np.empty_like(r)  # create a vector of "Ms" if the point is outide
     M[r >= R] = R**3 * 4.0 / 3.0 * np.pi * chi  # outside points
     M[r < R] = r[r < R] ** 3 * 4.0 / 3.0 * np.pi * chi  # inside points
 
-- 
2.43.0


From 077471d1f4d938acd9ec797dfa51155e1d702449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:19 +0000
Subject: [PATCH 145/154] fix: total field outside of an analytic magnetic
 sphere includes the primary field

---
 simpeg/potential_fields/magnetics/analytics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpeg/potential_fields/magnetics/analytics.py b/simpeg/potential_fields/magnetics/analytics.py
index bbc8fe9..e4ed10d 100644
--- a/simpeg/potential_fields/magnetics/analytics.py
+++ b/simpeg/potential_fields/magnetics/analytics.py
@@ -264,6 +264,11 @@ def MagSphereAnaFunA(x, y, z, R, xc, yc, zc, chi, Bo, flag):
     By[~ind] = const / (r[~ind] ** 3) * (3 * mdotr * (y[~ind] - yc) / r[~ind] - my)
     Bz[~ind] = const / (r[~ind] ** 3) * (3 * mdotr * (z[~ind] - zc) / r[~ind] - mz)
 
+    if flag == "total":
+        Bx[~ind] += Bo[0]
+        By[~ind] += Bo[1]
+        Bz[~ind] += Bo[2]
+
     return Bx, By, Bz
 
 
-- 
2.43.0


From 3f7f6030b2a71d4e270b5ce11b4c03751c72cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:19 +0000
Subject: [PATCH 146/154] fix: total potential of the analytic sphere is its
 primary plus secondary potential in a half-space

---
 simpeg/electromagnetics/analytics/DC.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/DC.py b/simpeg/electromagnetics/analytics/DC.py
index b6fe116..2abd8d8 100644
--- a/simpeg/electromagnetics/analytics/DC.py
+++ b/simpeg/electromagnetics/analytics/DC.py
@@ -193,8 +193,10 @@ def DCAnalyticSphere(
     # primary potential in a whole space
     prim = rho * 1.0 / (4 * np.pi * R)
 
+    scale = 2 if halfspace else 1
+
     if field_type == "primary":
-        return prim
+        return scale * prim
 
     sphind = r < radius
     out = np.zeros_like(r)
@@ -207,11 +209,6 @@ def DCAnalyticSphere(
 
     out[~sphind] += prim[~sphind]
 
-    if halfspace:
-        scale = 2
-    else:
-        scale = 1
-
     if field_type == "secondary":
         return scale * (out - prim)
     elif field_type == "total":
-- 
2.43.0


From cb7a10ddeee3331d492ef947ba2f52f2e7300061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:20 +0000
Subject: [PATCH 147/154] fix: analytic transient fields of a magnetic dipole
 satisfy the equations of Maxwell

---
 simpeg/electromagnetics/analytics/TDEM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/TDEM.py b/simpeg/electromagnetics/analytics/TDEM.py
index c73ca0a..3157a98 100644
--- a/simpeg/electromagnetics/analytics/TDEM.py
+++ b/simpeg/electromagnetics/analytics/TDEM.py
@@ -81,7 +81,7 @@ def TransientMagneticDipoleWholeSpace(
         )
 
     elif fieldType == "dhdt":
-        front = (4 * k**5 / (pi**1.5 * mu * sig)) * np.exp(-(kr**2))
+        front = -(4 * k**5 / (pi**1.5 * mu * sig)) * np.exp(-(kr**2))
         mid = kr**2
         end = 1 - kr**2
 
@@ -106,11 +106,11 @@ def TransientMagneticDipoleWholeSpace(
     elif fieldType == "e":
         front = (2 * k**5 / (pi**1.5 * sig)) * np.exp(-(kr**2))
 
-        Fx = front * (my * (-dz / r) + mz * (dy / r))
+        Fx = front * (my * dz + mz * -dy)
 
-        Fy = front * (mx * (dz / r) + mz * (-dx / r))
+        Fy = front * (mx * -dz + mz * dx)
 
-        Fz = front * (mx * (-dy / r) + my * (dx / r))
+        Fz = front * (mx * dy + my * -dx)
 
     return Fx, Fy, Fz
 
-- 
2.43.0


From 686624049ecc9c07b27293aa7fe54486c7a2cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:20 +0000
Subject: [PATCH 148/154] fix: analytic transient magnetic field of an electric
 dipole has the direction of its current

---
 simpeg/electromagnetics/analytics/TDEM.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/analytics/TDEM.py b/simpeg/electromagnetics/analytics/TDEM.py
index 3157a98..4edcefb 100644
--- a/simpeg/electromagnetics/analytics/TDEM.py
+++ b/simpeg/electromagnetics/analytics/TDEM.py
@@ -171,19 +171,19 @@ def TransientElectricDipoleWholeSpace(
             erf(kr) - 2 * kr * np.exp(-(kr**2)) / np.sqrt(pi)
         )
 
-        Fx = front * (my * -dz + mz * dy)
+        Fx = front * (my * dz + mz * -dy)
 
-        Fy = front * (mx * dz + mz * -dx)
+        Fy = front * (mx * -dz + mz * dx)
 
-        Fz = front * (mx * -dy + my * dx)
+        Fz = front * (mx * dy + my * -dx)
 
     elif fieldType == "dhdt":
         front = -(2 * k**5 / (pi**1.5 * mu * sig)) * np.exp(-(kr**2))
 
-        Fx = front * (my * -dz + mz * dy)
+        Fx = front * (my * dz + mz * -dy)
 
-        Fy = front * (mx * dz + mz * -dx)
+        Fy = front * (mx * -dz + mz * dx)
 
-        Fz = front * (mx * -dy + my * dx)
+        Fz = front * (mx * dy + my * -dx)
 
     return Fx, Fy, Fz
-- 
2.43.0


From 1660e94e8ec5e79bce21d0eb9bcbdff0bdfcfa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:35 +0000
Subject: [PATCH 149/154] fix: gravity driver finds its static and dynamic
 cells in any order of reading

---
 simpeg/utils/drivers/gravity_driver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/utils/drivers/gravity_driver.py b/simpeg/utils/drivers/gravity_driver.py
index 77c6fcf..84300d6 100644
--- a/simpeg/utils/drivers/gravity_driver.py
+++ b/simpeg/utils/drivers/gravity_driver.py
@@ -204,7 +204,7 @@ class GravityDriver_Inv(object):
     def staticCells(self):
         if getattr(self, "_staticCells", None) is None:
             # Cells with value 1 in active model are dynamic
-            staticCells = self.activeModel[self._activeCells] == -1
+            staticCells = self.activeModel[self.activeCells] == -1
 
             inds = np.where(staticCells)[0]
             self._staticCells = inds
@@ -215,7 +215,7 @@ class GravityDriver_Inv(object):
     def dynamicCells(self):
         if getattr(self, "_dynamicCells", None) is None:
             # Cells with value 1 in active model are dynamic
-            dynamicCells = self.activeModel[self._activeCells] == 1
+            dynamicCells = self.activeModel[self.activeCells] == 1
 
             inds = np.where(dynamicCells)[0]
 
@@ -263,6 +263,6 @@ class GravityDriver_Inv(object):
                 )
 
             else:
-                self._activeModel = np.ones(self._mesh.nC)
+                self._activeModel = np.ones(self.mesh.nC)
 
         return self._activeModel
-- 
2.43.0


From 884dd72d00db53dd378c747c652091598472afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:35 +0000
Subject: [PATCH 150/154] fix: magnetics driver reads its file of active cells

---
 simpeg/utils/drivers/magnetics_driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/utils/drivers/magnetics_driver.py b/simpeg/utils/drivers/magnetics_driver.py
index 60b799a..6caa6ee 100644
--- a/simpeg/utils/drivers/magnetics_driver.py
+++ b/simpeg/utils/drivers/magnetics_driver.py
@@ -271,14 +271,14 @@ class MagneticsDriver_Inv(object):
     @property
     def activeModel(self):
         if getattr(self, "_activeModel", None) is None:
-            if self._staticInput == "FILE":
+            if isinstance(self._staticInput, str):
                 # Read from file active cells with 0:air, 1:dynamic, -1 static
                 self._activeModel = TensorMesh.read_model_UBC(
                     self.mesh, self.basePath + self._staticInput
                 )
 
             else:
-                self._activeModel = np.ones(self._mesh.nC)
+                self._activeModel = np.ones(self.mesh.nC)
 
         return self._activeModel
 
-- 
2.43.0


From 2b1ba5cf33e342155f5381dd0f3c4672fd5e78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:35 +0000
Subject: [PATCH 151/154] fix: magnetization of the magnetics driver from its
 file or the inducing field

---
 simpeg/utils/drivers/magnetics_driver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/utils/drivers/magnetics_driver.py b/simpeg/utils/drivers/magnetics_driver.py
index 6caa6ee..3b11ff2 100644
--- a/simpeg/utils/drivers/magnetics_driver.py
+++ b/simpeg/utils/drivers/magnetics_driver.py
@@ -290,8 +290,8 @@ class MagneticsDriver_Inv(object):
 
         if getattr(self, "magfile", None) is None:
             M = utils.mat_utils.dip_azimuth2cartesian(
-                np.ones(self.nC) * self.survey.srcField.param[1],
-                np.ones(self.nC) * self.survey.srcField.param[2],
+                np.ones(self.nC) * self.survey.source_field.inclination,
+                np.ones(self.nC) * self.survey.source_field.declination,
             )
 
         else:
@@ -302,7 +302,7 @@ class MagneticsDriver_Inv(object):
             M = []
 
             for line in magmodel:
-                M.append(map(float, line.split()))
+                M.append(list(map(float, line.split())))
 
             # Convert list to 2d array
             M = np.vstack(M)
-- 
2.43.0


From 58b8987b51f592760c9e023cf0ff445bd3644d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:36 +0000
Subject: [PATCH 152/154] fix: voltages of IO from apparent conductivities

---
 simpeg/electromagnetics/static/resistivity/IODC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/IODC.py b/simpeg/electromagnetics/static/resistivity/IODC.py
index e6807b6..13990f4 100644
--- a/simpeg/electromagnetics/static/resistivity/IODC.py
+++ b/simpeg/electromagnetics/static/resistivity/IODC.py
@@ -631,7 +631,7 @@ class IO:
         elif self.data_dc_type.lower() == "apparent_resistivity":
             return self.data_dc * self.G
         elif self.data_dc_type.lower() == "apparent_conductivity":
-            return self.apparent_conductivity / (self.data_dc * self.G)
+            return self.G / self.data_dc
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From 57c7977f3735f91da56c37190e74e849f2941f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:36 +0000
Subject: [PATCH 153/154] fix: IO reads simple UBC files without topography

---
 simpeg/electromagnetics/static/resistivity/IODC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/IODC.py b/simpeg/electromagnetics/static/resistivity/IODC.py
index 13990f4..d79a849 100644
--- a/simpeg/electromagnetics/static/resistivity/IODC.py
+++ b/simpeg/electromagnetics/static/resistivity/IODC.py
@@ -1227,8 +1227,8 @@ class IO:
 
     def read_ubc_dc2d_obs_file(self, filename, input_type="simple", toponame=None):
         obsfile = np.genfromtxt(filename, delimiter=" \n", dtype=str, comments="!")
+        topo = None
         if input_type == "general":
-            topo = None
             n_src = 0
             n_rxs = []
             src_info = []
-- 
2.43.0


From 15e213de40fc6a1be11b21b8bce22e12888f86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:37 +0000
Subject: [PATCH 154/154] fix: minutes and seconds of EDI locations within one
 degree of the equator or the prime meridian

---
 .../electromagnetics/natural_source/utils/edi_files_utils.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/utils/edi_files_utils.py b/simpeg/electromagnetics/natural_source/utils/edi_files_utils.py
index 6ae02ae..2e8d52e 100644
--- a/simpeg/electromagnetics/natural_source/utils/edi_files_utils.py
+++ b/simpeg/electromagnetics/natural_source/utils/edi_files_utils.py
@@ -149,8 +149,8 @@ def _findLatLong(fileLines):
         [fileLines[_findLine("ELEV=", fileLines)[0]].split("=")[1].split()[0]], float
     )
     # Convert to D.ddddd values
-    latS = np.sign(latDMS[0])
-    longS = np.sign(longDMS[0])
+    latS = np.copysign(1.0, latDMS[0])
+    longS = np.copysign(1.0, longDMS[0])
     latD = latDMS[0] + latS * latDMS[1] / 60 + latS * latDMS[2] / 3600
     longD = longDMS[0] + longS * longDMS[1] / 60 + longS * longDMS[2] / 3600
     return latD, longD, elevM
-- 
2.43.0

