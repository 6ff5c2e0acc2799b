From c61ba3cc04d5199b7ffff32414fa8a895d417711 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:51:28 +0000
Subject: [PATCH 01/15] fix: tiling integrand vanishes outside its compact
 support

Round-off in the quadrature nodes can push the argument onto or past the end of
the support, where the formula evaluates to inf or divides by zero, giving
infinite or NaN filters (e.g. lam=5 for every L).
---
 s2wav/filters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index fe8c457..e79b932 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -371,6 +371,10 @@ def tiling_integrand(t: float, lam: float = 2.0) -> float:
     """
     s_arg = (t - (1.0 / lam)) * (2.0 * lam / (lam - 1.0)) - 1.0
 
+    # The generating function has compact support, and vanishes at its boundary.
+    if abs(s_arg) >= 1.0:
+        return 0.0
+
     integrand = np.exp(-2.0 / (1.0 - s_arg**2.0)) / t
 
     return integrand
-- 
2.43.0


From 5190b86b1e765e72ec9960f57927b21ce06d2455 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:51:28 +0000
Subject: [PATCH 02/15] fix: vectorised and JAX spin normalisation of the
 filters

Both raised for every spin0 != 0 (reshape of 2|s| entries to 2|s|+1) and formed
el * s in place of el + s, unlike the looped version they stand for.
---
 s2wav/filters.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index e79b932..3313dd0 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -664,9 +664,10 @@ def _spin_normalization_vectorised(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = np.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return np.sqrt(np.prod(factor, axis=1) ** (np.sign(spin)))
+    factor = el.reshape(len(el), 1) + np.arange(-abs(spin) + 1.0, abs(spin) + 1.0)
+    # The normalization is only defined for el >= |spin|
+    factor = np.where(el < abs(spin), 1.0, np.prod(factor, axis=1))
+    return np.sqrt(factor ** (np.sign(spin)))
 
 
 @partial(jit, static_argnums=(0, 1))
@@ -728,6 +729,7 @@ def _spin_normalization_jax(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return jnp.sqrt(jnp.prod(factor, axis=1) ** (jnp.sign(spin)))
+    factor = el.reshape(len(el), 1) + jnp.arange(-abs(spin) + 1.0, abs(spin) + 1.0)
+    # The normalization is only defined for el >= |spin|
+    factor = jnp.where(el < abs(spin), 1.0, jnp.prod(factor, axis=1))
+    return jnp.sqrt(factor ** (jnp.sign(spin)))
-- 
2.43.0


From 783b5078a2300459a90ce579844ef4b33c84ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:51:28 +0000
Subject: [PATCH 03/15] fix: vectorised and JAX filters have no wavelets below
 J_min

The looped version (and s2let) leaves those scales empty: their content is already
in the scaling function, so the tiling is not a partition of unity with them.
---
 s2wav/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index 3313dd0..76e942e 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -189,6 +189,7 @@ def filters_axisym_vectorised(
     k = k_lam(L, lam)
     diff = (np.roll(k, -1, axis=0) - k)[:-1]
     diff[diff < 0] = 0
+    diff[:J_min] = 0
     return np.sqrt(diff), np.sqrt(k[J_min])
 
 
@@ -287,6 +288,7 @@ def filters_axisym_jax(
     k = k_lam_jax(L, lam)
     diff = (jnp.roll(k, -1, axis=0) - k)[:-1]
     diff = jnp.where(diff < 0, jnp.zeros((J + 1, L)), diff)
+    diff = diff.at[:J_min].set(0)
     return jnp.sqrt(diff), jnp.sqrt(k[J_min])
 
 
-- 
2.43.0


From 4dc454d07f664b84d33e9e34587b6d9fec506535 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:51:28 +0000
Subject: [PATCH 04/15] fix: j_max no longer overshoots by round-off when L is
 a power of lam

e.g. L=125, lam=5 gave 4: a spurious empty scale, on which the multiresolution
transforms fail.
---
 s2wav/samples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 771bd09..dd09cc5 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -573,7 +573,11 @@ def j_max(L: int, lam: float = 2.0) -> int:
     Returns:
         int: The maximum wavelet scale used.
     """
-    return int(np.ceil(np.log(L) / np.log(lam)))
+    J = int(np.ceil(np.log(L) / np.log(lam)))
+    # Round-off in the ratio of logarithms can overshoot when L is a power of lam
+    if J > 0 and lam ** (J - 1) >= L:
+        J -= 1
+    return J
 
 
 def wavelet_shape_check(
-- 
2.43.0


From e22be2b2ee2df3e00f53d9106c9274373c9708ab Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:51:28 +0000
Subject: [PATCH 05/15] fix: lower band-limit of a wavelet scale stays below
 its upper band-limit

For non-integer lam, ceil(lam^(J-1)) can reach L (e.g. L=7, lam=2.5), and the
Wigner transforms of that scale then failed on an empty harmonic range.
---
 s2wav/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index dd09cc5..6fbcda1 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -122,7 +122,7 @@ def LN_j(
     if j == 0:
         j += 1
     Lj = wav_j_bandlimit(L, j, lam, multiresolution)
-    L0j = L0_j(j, lam) if multiresolution else 0
+    L0j = min(L0_j(j, lam), Lj - 1) if multiresolution else 0
     Nj = N
     if multiresolution:
         Nj = min(N, Lj)
-- 
2.43.0


From a5c62f48aaed1c47751248f12f2556423f16174b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:51:57 +0000
Subject: [PATCH 06/15] fix: scaling coefficients of band-limit one have the
 shape of the sampling scheme

For J_min=0 the JAX, C and precompute analysis returned a 1x1 array in place of
the (2,2) of mwss or the (2,1) of dh; the C synthesis then failed on it.
---
 s2wav/transforms/wavelet.py                  | 3 ++-
 s2wav/transforms/wavelet_c.py                | 3 ++-
 s2wav/transforms/wavelet_precompute.py       | 3 ++-
 s2wav/transforms/wavelet_precompute_torch.py | 4 +++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 9410e82..f86251f 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -204,7 +204,8 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = jnp.full(shape, temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
         f_scal = s2fft.inverse_jax(temp, Ls, spin, nside, sampling, reality)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index ad5238d..259b136 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -147,7 +147,8 @@ def analysis(
         )
 
     if Ls == 1:
-        f_scal = flm_scal * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, None, True)
+        f_scal = jnp.full(shape, flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a9d1487..33fb184 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -212,7 +212,8 @@ def analysis(
     temp = jnp.einsum("lm,l->lm", flm[:Ls, L - Ls : L - 1 + Ls], phi, optimize=True)
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = jnp.full(shape, temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
         f_scal = spherical.inverse_transform_jax(
             temp, precomps[1], Ls, sampling, reality, spin, nside
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 9abeac0..71f0a2a 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -201,9 +201,11 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * torch.sqrt(
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = temp[0, 0] * torch.sqrt(
             torch.tensor(1 / (4 * torch.pi), dtype=torch.float64)
         )
+        f_scal = f_scal * torch.ones(shape, dtype=torch.float64)
     else:
         f_scal = spherical.inverse_transform_torch(
             temp, precomps[1], Ls, sampling, reality, spin, nside
-- 
2.43.0


From 0695c44a516c04b8c41802436846f1ae95aabc8a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:51:57 +0000
Subject: [PATCH 07/15] fix: C backend handles a scaling band-limit not
 exceeding the spin

Such a scaling part is empty; the C transforms of it raised, e.g. every synthesis
of a spin signal with the default J_min=0.
---
 s2wav/transforms/wavelet_c.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index 259b136..ddf86c8 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -67,9 +67,13 @@ def synthesis(
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
-    f_scal_lm = ssht_forward(
-        f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
-    )
+    if Ls <= abs(spin):
+        # No harmonic coefficients with el >= |spin|
+        f_scal_lm = jnp.zeros((Ls, 2 * Ls - 1), dtype=jnp.complex128)
+    else:
+        f_scal_lm = ssht_forward(
+            f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
+        )
     f_wav_lmn = []
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
@@ -149,6 +153,10 @@ def analysis(
     if Ls == 1:
         shape = samples.f_scal(L, J_min, lam, sampling, None, True)
         f_scal = jnp.full(shape, flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
+    elif Ls <= abs(spin):
+        # No harmonic coefficients with el >= |spin|
+        shape = samples.f_scal(L, J_min, lam, sampling, None, True)
+        f_scal = jnp.zeros(shape, dtype=jnp.complex128)
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
     return f_wav, f_scal
-- 
2.43.0


From 008188c32b22838d3593c4e0aa500fc6797d5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:51:57 +0000
Subject: [PATCH 08/15] fix: precompute flm_to_analysis picks the kernel of
 each scale when J_max is given

The duplicated kernel is that of the highest scale of the band-limit, not of J_max:
with J_max below it, scale J_max was transformed with the kernel of scale J_max-1.
---
 s2wav/transforms/wavelet_precompute.py       | 2 +-
 s2wav/transforms/wavelet_precompute_torch.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index 33fb184..7f50101 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -304,7 +304,7 @@ def flm_to_analysis(
                 )
             )
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         shift = shift if _precomp_shift else 0
 
         f_wav.append(
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 71f0a2a..8a3bade 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -285,7 +285,7 @@ def flm_to_analysis(
             flm[L0j:Lj, L - Lj : L - 1 + Lj],
             wav_lm[j, L0j:Lj, L - Nj : L - 1 + Nj : 2],
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         f_wav[j - J_min] = wigner.inverse_transform_torch(
             f_wav_lmn[j - J_min],
             precomps[2][j - J_min + shift],
-- 
2.43.0


From 57cba624a7ad18f360d7969e7bd9b5008b2133f3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:52:12 +0000
Subject: [PATCH 09/15] fix: full precomputes can be generated for the spin of
 the signal

The spherical kernels were always those of spin 0, so that the precompute
transforms, which take a spin, were wrong for every spin != 0.
---
 s2wav/transforms/construct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/construct.py b/s2wav/transforms/construct.py
index 42a2497..6cdf04a 100644
--- a/s2wav/transforms/construct.py
+++ b/s2wav/transforms/construct.py
@@ -21,6 +21,7 @@ def generate_full_precomputes(
     reality: bool = False,
     nospherical: bool = False,
     using_torch: bool = False,
+    spin: int = 0,
 ) -> List[jnp.ndarray]:
     r"""Generates a list of precompute arrays associated with the underlying Wigner
     transforms.
@@ -51,6 +52,8 @@ def generate_full_precomputes(
 
         using_torch (bool, optional): Desired frontend functionality. Defaults to False.
 
+        spin (int, optional): Spin (integer) of input signal. Defaults to 0.
+
     Returns:
         List[jnp.ndarray]: Precomputed recursion arrays for underlying Wigner transforms.
     """
@@ -66,10 +69,10 @@ def generate_full_precomputes(
     if nospherical:
         return [], [], precomps
     precompute_scaling = spin_spherical_kernel_jax(
-        Ls, 0, reality, sampling, nside, forward
+        Ls, spin, reality, sampling, nside, forward
     )
     precompute_full = spin_spherical_kernel_jax(
-        L, 0, reality, sampling, nside, not forward
+        L, spin, reality, sampling, nside, not forward
     )
 
     if using_torch:
-- 
2.43.0


From 7efff989845ab634fafea6fa6c63c2ad911af32a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:52:22 +0000
Subject: [PATCH 10/15] fix: transforms generate their filters when none are
 given

The filters argument is documented as optional, and the README calls
analysis(f, L, N) without it, but None was subscripted in every accelerated
transform.
---
 s2wav/transforms/wavelet.py                  | 7 +++++++
 s2wav/transforms/wavelet_c.py                | 7 +++++++
 s2wav/transforms/wavelet_precompute.py       | 7 +++++++
 s2wav/transforms/wavelet_precompute_torch.py | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index f86251f..e63d5bd 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 import s2fft
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 from s2wav.transforms import construct
 
 
@@ -66,6 +67,8 @@ def synthesis(
         [1] B. Leidstedt et. al., "S2LET: A code to perform fast wavelet analysis on the sphere", A&A, vol. 558, p. A128, 2013.
         [2] J. McEwen et. al., "Directional spin wavelets on the sphere", arXiv preprint arXiv:1509.06749 (2015).
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
     if precomps is None:
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, True, reality
@@ -151,6 +154,8 @@ def analysis(
         f_scal (jnp.ndarray): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
     if precomps is None:
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, False, reality
@@ -258,6 +263,8 @@ def flm_to_analysis(
         f_wav (jnp.ndarray): Array of wavelet pixel-space coefficients
             with shape :math:`[n_{J}, 2N-1, n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
     if precomps is None:
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, False, reality
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index ddf86c8..409e82b 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -5,6 +5,7 @@ from functools import partial
 import s2fft
 from s2fft.transforms.c_backend_spherical import ssht_forward, ssht_inverse
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 def synthesis(
@@ -60,6 +61,8 @@ def synthesis(
         [1] B. Leidstedt et. al., "S2LET: A code to perform fast wavelet analysis on the sphere", A&A, vol. 558, p. A128, 2013.
         [2] J. McEwen et. al., "Directional spin wavelets on the sphere", arXiv preprint arXiv:1509.06749 (2015).
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
     if sampling.lower() == "healpix":
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
@@ -130,6 +133,8 @@ def analysis(
         f_scal (jnp.ndarray): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
     if sampling.lower() == "healpix":
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
@@ -200,6 +205,8 @@ def flm_to_analysis(
         f_wav (jnp.ndarray): Array of wavelet pixel-space coefficients
             with shape :math:`[n_{J}, 2N-1, n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
     J = J_max if J_max is not None else samples.j_max(L, lam)
     f_wav_lmn = _generate_and_apply_wavelets(flm, L, N, J_min, J, lam, filters)
 
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index 7f50101..f151c95 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 from s2fft.precompute_transforms import wigner, spherical
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 @partial(jit, static_argnums=(2, 3, 4, 5, 6, 7, 8, 9))
@@ -68,6 +69,8 @@ def synthesis(
         [1] B. Leidstedt et. al., "S2LET: A code to perform fast wavelet analysis on the sphere", A&A, vol. 558, p. A128, 2013.
         [2] J. McEwen et. al., "Directional spin wavelets on the sphere", arXiv preprint arXiv:1509.06749 (2015).
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
@@ -161,6 +164,8 @@ def analysis(
         f_scal (jnp.ndarray): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
@@ -275,6 +280,8 @@ def flm_to_analysis(
         f_scal (jnp.ndarray): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 8a3bade..2eebcc8 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -2,6 +2,7 @@ import torch
 from typing import Tuple, List
 from s2fft.precompute_transforms import wigner, spherical
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 def synthesis(
@@ -65,6 +66,8 @@ def synthesis(
         [1] B. Leidstedt et. al., "S2LET: A code to perform fast wavelet analysis on the sphere", A&A, vol. 558, p. A128, 2013.
         [2] J. McEwen et. al., "Directional spin wavelets on the sphere", arXiv preprint arXiv:1509.06749 (2015).
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin, using_torch=True)
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
@@ -154,6 +157,8 @@ def analysis(
         f_scal (torch.tensor): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin, using_torch=True)
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
@@ -262,6 +267,8 @@ def flm_to_analysis(
         f_scal (torch.tensor): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, using_torch=True)[0]
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
-- 
2.43.0


From cc8f496c308ca1954cb69093b9cf183bd07320f6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:59:40 +0000
Subject: [PATCH 11/15] fix: precompute synthesis of axisymmetric (N=1)
 wavelets

With mw or mwss sampling, the defaults, s2fft drops the single orientation when it
resamples, and every such synthesis raised an IndexError.
---
 s2wav/transforms/wavelet_precompute.py       | 22 ++++++++++++--------
 s2wav/transforms/wavelet_precompute_torch.py | 22 ++++++++++++--------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index f151c95..1335fe0 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -86,15 +86,19 @@ def synthesis(
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
         shift = 0 if j < J else -1
-        temp = wigner.forward_transform_jax(
-            f_wav[j - J_min],
-            precomps[2][j - J_min + shift],
-            Lj,
-            Nj,
-            sampling,
-            reality,
-            nside,
-        )
+        kernel = precomps[2][j - J_min + shift]
+        if Nj == 1:
+            # An axisymmetric scale is a signal on the sphere, and s2fft cannot
+            # resample a Wigner transform with a single orientation.
+            f_sph = f_wav[j - J_min][0]
+            f_sph = jnp.real(f_sph) if reality else f_sph
+            temp = spherical.forward_transform_jax(
+                f_sph, kernel[0], Lj, sampling, False, 0, nside
+            )[None]
+        else:
+            temp = wigner.forward_transform_jax(
+                f_wav[j - J_min], kernel, Lj, Nj, sampling, reality, nside
+            )
         flm = flm.at[L0j:Lj, L - Lj : L - 1 + Lj].add(
             jnp.einsum(
                 "ln,nlm->lm",
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 2eebcc8..6505ec5 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -83,15 +83,19 @@ def synthesis(
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
         shift = 0 if j < J else -1
-        temp = wigner.forward_transform_torch(
-            f_wav[j - J_min],
-            precomps[2][j - J_min + shift],
-            Lj,
-            Nj,
-            sampling,
-            reality,
-            nside,
-        )
+        kernel = precomps[2][j - J_min + shift]
+        if Nj == 1:
+            # An axisymmetric scale is a signal on the sphere, and s2fft cannot
+            # resample a Wigner transform with a single orientation.
+            f_sph = f_wav[j - J_min][0]
+            f_sph = torch.real(f_sph) if reality else f_sph
+            temp = spherical.forward_transform_torch(
+                f_sph, kernel[0], Lj, sampling, False, 0, nside
+            )[None]
+        else:
+            temp = wigner.forward_transform_torch(
+                f_wav[j - J_min], kernel, Lj, Nj, sampling, reality, nside
+            )
         flm[L0j:Lj, L - Lj : L - 1 + Lj] += torch.einsum(
             "ln,nlm->lm",
             filters[0][j, L0j:Lj, L - Nj : L - 1 + Nj : 2],
-- 
2.43.0


From b4575cd35d8532d5ba619a4f49c67eb676561fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:00:48 +0000
Subject: [PATCH 12/15] fix: C backend handles scales with more orientations
 than their band-limit

When N exceeds the band-limit of a scale, matching parities leaves N_j = L_j + 1, and
the ducc0 transform of order L_j raised (e.g. L=8, N=5, J_min=1).
---
 s2wav/transforms/wavelet_c.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index 409e82b..b5be800 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -80,9 +80,11 @@ def synthesis(
     f_wav_lmn = []
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
+        # The ducc0 backend of s2fft cannot handle orders not below the band-limit
+        backend = 1 if Nj <= Lj else 0
         f_wav_lmn.append(
             s2fft.wigner.forward_jax_ssht(
-                f_wav[j - J_min], Lj, Nj, L0j, sampling, reality
+                f_wav[j - J_min], Lj, Nj, L0j, sampling, reality, backend
             )
         )
 
@@ -149,9 +151,11 @@ def analysis(
     f_wav = []
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
+        # The ducc0 backend of s2fft cannot handle orders not below the band-limit
+        backend = 1 if Nj <= Lj else 0
         f_wav.append(
             s2fft.wigner.inverse_jax_ssht(
-                f_wav_lmn[j - J_min], Lj, Nj, L0j, sampling, reality
+                f_wav_lmn[j - J_min], Lj, Nj, L0j, sampling, reality, backend
             )
         )
 
@@ -213,9 +217,11 @@ def flm_to_analysis(
     f_wav = []
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
+        # The ducc0 backend of s2fft cannot handle orders not below the band-limit
+        backend = 1 if Nj <= Lj else 0
         f_wav.append(
             s2fft.wigner.inverse_jax_ssht(
-                f_wav_lmn[j - J_min], Lj, Nj, L0j, sampling, reality
+                f_wav_lmn[j - J_min], Lj, Nj, L0j, sampling, reality, backend
             )
         )
 
-- 
2.43.0


From 936e346ef38acf5a33e2ed6ce5e41233dff9cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:46 +0000
Subject: [PATCH 13/15] fix: C backend gradients on DH sampling

---
 s2wav/transforms/wavelet_c.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index b5be800..970de98 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -75,13 +75,18 @@ def synthesis(
         f_scal_lm = jnp.zeros((Ls, 2 * Ls - 1), dtype=jnp.complex128)
     else:
         f_scal_lm = ssht_forward(
-            f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
+            f_scal.real if reality else f_scal,
+            Ls,
+            spin,
+            reality,
+            ssht_sampling,
+            _ssht_backend(sampling),
         )
     f_wav_lmn = []
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
         # The ducc0 backend of s2fft cannot handle orders not below the band-limit
-        backend = 1 if Nj <= Lj else 0
+        backend = _ssht_backend(sampling) if Nj <= Lj else 0
         f_wav_lmn.append(
             s2fft.wigner.forward_jax_ssht(
                 f_wav[j - J_min], Lj, Nj, L0j, sampling, reality, backend
@@ -91,7 +96,9 @@ def synthesis(
     flm = _sum_over_wavelet_and_scaling(
         f_wav_lmn, f_scal_lm, L, N, J_min, J, lam, filters
     )
-    return ssht_inverse(flm, L, spin, reality, ssht_sampling)
+    return ssht_inverse(
+        flm, L, spin, reality, ssht_sampling, _ssht_backend(sampling)
+    )
 
 
 def analysis(
@@ -144,7 +151,9 @@ def analysis(
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
-    flm = ssht_forward(f, L, spin, reality, ssht_sampling)
+    flm = ssht_forward(
+        f, L, spin, reality, ssht_sampling, _ssht_backend(sampling)
+    )
     f_wav_lmn = _generate_and_apply_wavelets(flm, L, N, J_min, J, lam, filters[0])
     flm_scal = _generate_and_apply_scaling(flm, L, J_min, lam, filters[1])
 
@@ -152,7 +161,7 @@ def analysis(
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
         # The ducc0 backend of s2fft cannot handle orders not below the band-limit
-        backend = 1 if Nj <= Lj else 0
+        backend = _ssht_backend(sampling) if Nj <= Lj else 0
         f_wav.append(
             s2fft.wigner.inverse_jax_ssht(
                 f_wav_lmn[j - J_min], Lj, Nj, L0j, sampling, reality, backend
@@ -167,7 +176,9 @@ def analysis(
         shape = samples.f_scal(L, J_min, lam, sampling, None, True)
         f_scal = jnp.zeros(shape, dtype=jnp.complex128)
     else:
-        f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
+        f_scal = ssht_inverse(
+            flm_scal, Ls, spin, reality, ssht_sampling, _ssht_backend(sampling)
+        )
     return f_wav, f_scal
 
 
@@ -218,7 +229,7 @@ def flm_to_analysis(
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
         # The ducc0 backend of s2fft cannot handle orders not below the band-limit
-        backend = 1 if Nj <= Lj else 0
+        backend = _ssht_backend(sampling) if Nj <= Lj else 0
         f_wav.append(
             s2fft.wigner.inverse_jax_ssht(
                 f_wav_lmn[j - J_min], Lj, Nj, L0j, sampling, reality, backend
@@ -228,6 +239,13 @@ def flm_to_analysis(
     return f_wav
 
 
+def _ssht_backend(sampling: str) -> int:
+    """Private internal function which selects the backend of the SSHT C library."""
+    # The quadrature of the ducc0 backend for DH sampling is not that assumed by the
+    # gradients of s2fft, whereas the quadrature of the SSHT core is.
+    return 0 if sampling.lower() == "dh" else 1
+
+
 @partial(jit, static_argnums=(1, 2, 3, 4, 5))
 def _generate_and_apply_wavelets(
     flm: jnp.ndarray,
-- 
2.43.0


From 27f055de907fd36cd0060f34b16d4a0fd69e0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:13 +0000
Subject: [PATCH 14/15] fix: precompute synthesis rejects coefficients of the
 wrong shape

---
 s2wav/transforms/wavelet_precompute.py       | 3 +++
 s2wav/transforms/wavelet_precompute_torch.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index 1335fe0..d7cc8ca 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -73,6 +73,9 @@ def synthesis(
         filters = filters_directional_vectorised(L, N, J_min, lam, spin)
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
+    samples.wavelet_shape_check(
+        f_wav, f_scal, L, N, J_min, lam, sampling, nside, True
+    )
 
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 6505ec5..95478ed 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -70,6 +70,9 @@ def synthesis(
         filters = filters_directional_vectorised(L, N, J_min, lam, spin, using_torch=True)
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
+    samples.wavelet_shape_check(
+        f_wav, f_scal, L, N, J_min, lam, sampling, nside, True
+    )
 
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
-- 
2.43.0


From 8e677a7d52c550940e3448a6d5bd90d46ded1b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:05 +0000
Subject: [PATCH 15/15] fix: Wigner recursion precomputes for the torch
 frontend

---
 s2wav/transforms/construct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/transforms/construct.py b/s2wav/transforms/construct.py
index 6cdf04a..b5f7444 100644
--- a/s2wav/transforms/construct.py
+++ b/s2wav/transforms/construct.py
@@ -130,6 +130,6 @@ def generate_wigner_precomputes(
             Lj, Nj, sampling, nside, forward, reality, L0j
         )
         precomps.append(
-            torch.from_numpy(np.array(kernel))
+            [torch.from_numpy(np.array(coeffs)) for coeffs in kernel]
         ) if using_torch else precomps.append(kernel)
     return precomps
-- 
2.43.0

