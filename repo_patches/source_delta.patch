From dc680800e64d60835c48eaefee5594bf12618447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 01/44] fix: save_cdict appends .cdict instead of replacing
 what follows the last dot

'run.0.1' and 'run.0.2' were both saved as 'run.0.cdict'.
---
 mocat/src/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/core.py b/mocat/src/core.py
index fd327a6..a002105 100644
--- a/mocat/src/core.py
+++ b/mocat/src/core.py
@@ -93,7 +93,7 @@ def save_cdict(in_cdict: cdict,
                overwrite: bool = False):
     path = Path(path)
     if path.suffix != '.cdict':
-        path = path.with_suffix('.cdict')
+        path = path.with_name(path.name + '.cdict')
     path.parent.mkdir(parents=True, exist_ok=True)
     if path.exists():
         if overwrite:
-- 
2.43.0


From 7bcec44fbca594b4f4e6ddd6cc62108057250519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 02/44] fix: save_cdict writes atomically

Overwriting unlinked the existing file before writing, so a crash or a failing
pickle lost it and left a truncated file that blocked later saves.
---
 mocat/src/core.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mocat/src/core.py b/mocat/src/core.py
index a002105..b011cc2 100644
--- a/mocat/src/core.py
+++ b/mocat/src/core.py
@@ -5,6 +5,7 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
+import os
 import pickle
 import copy
 from typing import Union, Callable, Tuple
@@ -95,13 +96,18 @@ def save_cdict(in_cdict: cdict,
     if path.suffix != '.cdict':
         path = path.with_name(path.name + '.cdict')
     path.parent.mkdir(parents=True, exist_ok=True)
-    if path.exists():
-        if overwrite:
-            path.unlink()
-        else:
-            raise RuntimeError(f'File {path} already exists.')
-    with open(path, 'wb') as file:
-        pickle.dump(in_cdict, file)
+    if path.exists() and not overwrite:
+        raise RuntimeError(f'File {path} already exists.')
+    # Write to a temporary file first so that path always holds either the complete old or complete new cdict
+    temp_path = path.with_name(f'.{path.name}.{os.getpid()}.tmp')
+    try:
+        with open(temp_path, 'wb') as file:
+            pickle.dump(in_cdict, file)
+            file.flush()
+            os.fsync(file.fileno())
+        os.replace(temp_path, path)
+    finally:
+        temp_path.unlink(missing_ok=True)
 
 
 def load_cdict(path: Union[str, Path]) -> cdict:
-- 
2.43.0


From cf197bc35188f75e1e0b13812c0e84d9ab9fad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 03/44] fix: copying a static_cdict keeps it static

---
 mocat/src/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/core.py b/mocat/src/core.py
index b011cc2..950f907 100644
--- a/mocat/src/core.py
+++ b/mocat/src/core.py
@@ -24,7 +24,7 @@ class cdict:
         self.__dict__.update(kwargs)
 
     def copy(self) -> 'cdict':
-        return cdict(**self.__dict__)
+        return self.__class__(**self.__dict__)
 
     def deepcopy(self) -> 'cdict':
         return copy.deepcopy(self)
-- 
2.43.0


From 193c8e95319fcb5832f7d2ea15a80d5194bc3fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 04/44] fix: IMQ kernel grad_x and diag_grad_xy are the
 derivatives of the kernel

grad_x missed a division by bandwidth, diag_grad_xy had the wrong sign on its second term.
---
 mocat/src/kernels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mocat/src/kernels.py b/mocat/src/kernels.py
index 5e962ea..8a15bf1 100644
--- a/mocat/src/kernels.py
+++ b/mocat/src/kernels.py
@@ -191,7 +191,8 @@ class IMQ(Kernel):
                 beta: Union[float, jnp.ndarray],
                 bandwidth: Union[float, jnp.ndarray]) -> Union[float, jnp.ndarray]:
         diff = (x - y) / bandwidth
-        return diff * beta * jnp.power(c + 0.5 * jnp.sum(jnp.square(diff), axis=-1), beta - 1)
+        return diff / bandwidth * beta \
+               * jnp.power(c + 0.5 * jnp.sum(jnp.square(diff), axis=-1), beta - 1)
 
     @partial(jit, static_argnums=(0,))
     def _grad_y(self,
@@ -213,7 +214,7 @@ class IMQ(Kernel):
                       bandwidth: Union[float, jnp.ndarray]) -> Union[float, jnp.ndarray]:
         diff = (x - y) / bandwidth
         base = c + 0.5 * jnp.sum(jnp.square(diff), axis=-1)
-        return (- beta * jnp.power(base, beta - 1) + beta * (beta - 1) * diff ** 2 * jnp.power(base, beta - 2)) \
+        return (- beta * jnp.power(base, beta - 1) - beta * (beta - 1) * diff ** 2 * jnp.power(base, beta - 2)) \
                / bandwidth ** 2
 
 
-- 
2.43.0


From 866dc597ec3da2f17fb9b7a6fc3ee43e638b4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 05/44] fix: PreconditionedGaussian.diag_grad_xy is the
 derivative of the kernel

---
 mocat/src/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/kernels.py b/mocat/src/kernels.py
index 8a15bf1..f3b9fb4 100644
--- a/mocat/src/kernels.py
+++ b/mocat/src/kernels.py
@@ -156,7 +156,7 @@ class PreconditionedGaussian(Kernel):
                       y: jnp.ndarray,
                       bandwidth: float,
                       precision: jnp.ndarray) -> Union[float, jnp.ndarray]:
-        return precision / bandwidth ** 2 @ (1 - precision * ((x - y) / bandwidth) ** 2) \
+        return (jnp.diag(precision) / bandwidth ** 2 - (precision @ (x - y) / bandwidth ** 2) ** 2) \
                * self._call(x, y,
                             bandwidth=bandwidth,
                             precision=precision)
-- 
2.43.0


From 622694d3198423497d134896242e7760fe8a8264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 06/44] fix: autocorrelation uses the whole chain when
 max_lag_eval is shorter

The zero padded FFT length was taken from max_lag_eval, truncating the chain.
---
 mocat/src/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/metrics.py b/mocat/src/metrics.py
index a1f5582..c04ba26 100644
--- a/mocat/src/metrics.py
+++ b/mocat/src/metrics.py
@@ -37,7 +37,7 @@ def autocorrelation(sample: Union[jnp.ndarray, cdict],
                     max_lag_eval: int = 1000) -> jnp.ndarray:
     vals = extract_1d_vals(sample)
     max_lag_eval = min(max_lag_eval, len(vals))
-    n = _next_pow_two(max_lag_eval)
+    n = _next_pow_two(len(vals))
     f = jnp.fft.fft(vals - jnp.mean(vals), n=2 * n)
     acf = jnp.fft.ifft(f * jnp.conjugate(f))[:max_lag_eval].real
     return acf / acf[0]
-- 
2.43.0


From 90de4dd08fac94d3dfda662aa38696a77bf33cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 07/44] fix: GaussianMixture densities for non-identity
 covariances

The Cholesky factor of the precision was transposed and the normalising
constant used the determinant instead of its square root.
---
 mocat/src/scenarios/toy_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 40242b6..734f65c 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -97,9 +97,9 @@ class GaussianMixture(Scenario):
                             x: jnp.ndarray,
                             component_index: int) -> Union[float, jnp.ndarray]:
         return 0.5 * jnp.sum(jnp.square((x - self.means[component_index]) @
-                                      self.precision_sqrts[component_index].T), axis=-1) \
+                                      self.precision_sqrts[component_index]), axis=-1) \
                - jnp.log(self.weights[component_index]
-                        * self.precision_dets[component_index]
+                        * jnp.sqrt(self.precision_dets[component_index])
                         / jnp.power(2 * jnp.pi, self.dim * 0.5))
 
     def component_dens(self,
-- 
2.43.0


From a7d429d25d0bb476a738712acc30658740af3e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 08/44] fix: GaussianMixture follows reassigned parameters

The jitted methods kept the values of means, weights and covariances from
their first trace.
---
 mocat/src/scenarios/toy_examples.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 734f65c..79e95a8 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -8,7 +8,7 @@
 from typing import Union, Any, Callable
 
 import jax.numpy as jnp
-from jax import vmap, jit
+from jax import vmap
 
 from mocat.src.core import Scenario
 from mocat.utils import reset_covariance, gaussian_potential
@@ -83,11 +83,7 @@ class GaussianMixture(Scenario):
             self.precision_sqrts = vmap(jnp.linalg.cholesky)(self.precisions)
             self.precision_dets = vmap(jnp.linalg.det)(self.precisions)
 
-            self.component_potential = jit(self.component_potential)
-            self.component_potentials = jit(vmap(self.component_potential, (None, 0), 0))
-            self.component_dens = jit(self.component_dens)
-            self.dens = jit(self.dens)
-            self.component_potential = jit(self.component_potential)
+            self.component_potentials = vmap(self.component_potential, (None, 0), 0)
 
     @property
     def n_components(self) -> int:
-- 
2.43.0


From 0a9e660c4cdaeb3e693174e0edf8bc8036a77bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 09/44] fix: toy Gaussian and GaussianMixture gradients follow
 reassigned potentials

---
 mocat/src/scenarios/toy_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 79e95a8..909ae27 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -46,7 +46,7 @@ class Gaussian(Scenario):
     def __setattr__(self,
                     key: str,
                     value: Any):
-        self.__dict__[key] = value
+        super().__setattr__(key, value)
         if key[-10:] == 'covariance':
             reset_covariance(self, key, value)
 
@@ -71,7 +71,7 @@ class GaussianMixture(Scenario):
         super().__init__(**kwargs)
 
     def __setattr__(self, key, value):
-        self.__dict__[key] = value
+        super().__setattr__(key, value)
         if key == 'covariances':
             if value is None:
                 # Default: identity covariances
-- 
2.43.0


From d8ee8dcadaf0660d1326d3ffc2a904e8d237eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 10/44] fix: precision square roots follow the prec = sqrt_prec
 @ sqrt_prec.T convention

reset_covariance and the optimal particle filter stored the transposed factor, so
Gaussian potentials were wrong for every correlated covariance.
---
 mocat/src/scenarios/toy_examples.py | 2 +-
 mocat/src/ssm/nonlinear_gaussian.py | 6 +++---
 mocat/src/utils.py                  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 909ae27..90797b2 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -40,7 +40,7 @@ class Gaussian(Scenario):
     def likelihood_potential(self,
                              x: jnp.ndarray,
                              random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        x_diff = self.precision_mul(x - self.mean, self.precision_sqrt.T)
+        x_diff = self.precision_mul(x - self.mean, self.precision_sqrt)
         return 0.5 * jnp.square(x_diff).sum(axis=-1)
 
     def __setattr__(self,
diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index c5f1f9d..69f7dbf 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -162,7 +162,7 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
 
         self.initial_kalman_gain = kalman_gain(init_cov_sqrt, lik_mat, lik_cov_sqrt)
         lik_mat_t_lik_prec_sqrt = lik_mat.T @ lik_prec_sqrt
-        init_cond_prec = init_prec_sqrt @ init_prec_sqrt \
+        init_cond_prec = init_prec_sqrt @ init_prec_sqrt.T \
                          + lik_mat_t_lik_prec_sqrt @ lik_mat_t_lik_prec_sqrt.T
         self.initial_conditioned_precision_sqrt = jnp.linalg.cholesky(init_cond_prec)
         self.initial_conditioned_covariance_sqrt = jnp.linalg.inv(self.initial_conditioned_precision_sqrt)
@@ -177,7 +177,7 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
                        - self.proposal_kalman_gain @ ssm_scenario.likelihood_matrix \
                        @ ssm_scenario.transition_covariance
         self.proposal_covariance_sqrt = jnp.linalg.cholesky(proposal_cov)
-        self.proposal_precision_sqrt = jnp.linalg.inv(self.proposal_covariance_sqrt)
+        self.proposal_precision_sqrt = jnp.linalg.inv(self.proposal_covariance_sqrt).T
         self.proposal_precision_det = 1 / jnp.linalg.det(proposal_cov)
 
         self.weight_precision_sqrt = jnp.linalg.cholesky(weight_precision)
@@ -304,7 +304,7 @@ class EnsembleKalmanFilter(ParticleFilter):
 
         self.initial_kalman_gain = kalman_gain(init_cov_sqrt, lik_mat, lik_cov_sqrt)
         lik_mat_t_lik_prec_sqrt = lik_mat.T @ lik_prec_sqrt
-        init_cond_prec = init_prec_sqrt @ init_prec_sqrt \
+        init_cond_prec = init_prec_sqrt @ init_prec_sqrt.T \
                          + lik_mat_t_lik_prec_sqrt @ lik_mat_t_lik_prec_sqrt.T
         initial_conditioned_precision_sqrt = jnp.linalg.cholesky(init_cond_prec)
         self.initial_conditioned_covariance_sqrt = jnp.linalg.inv(initial_conditioned_precision_sqrt)
diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 15aead8..16a0c88 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -257,7 +257,7 @@ def reset_covariance(obj: Any,
     else:
         sqrt_mat = jnp.linalg.cholesky(value)
         setattr(obj, key + '_sqrt', sqrt_mat)
-        setattr(obj, prec_key + '_sqrt', jnp.linalg.inv(sqrt_mat))
+        setattr(obj, prec_key + '_sqrt', jnp.linalg.inv(sqrt_mat).T)
         setattr(obj, prec_key + '_det', 1 / jnp.linalg.det(value))
         setattr(obj, prec_key + '_mul', lambda a, b: a @ b)
 
-- 
2.43.0


From 37927eeb2aac50f1e6d00696641d51e9a3156058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 11/44] fix: precision determinant of a diagonal covariance is
 a scalar

---
 mocat/src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 16a0c88..b81a83b 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -252,7 +252,7 @@ def reset_covariance(obj: Any,
         sqrt_val = jnp.sqrt(value)
         setattr(obj, key + '_sqrt', sqrt_val)
         setattr(obj, prec_key + '_sqrt', 1 / sqrt_val)
-        setattr(obj, prec_key + '_det', 1 / value)
+        setattr(obj, prec_key + '_det', jnp.prod(1 / value))
         setattr(obj, prec_key + '_mul', lambda a, b: a * b)
     else:
         sqrt_mat = jnp.linalg.cholesky(value)
-- 
2.43.0


From 83363fb3e944d2aaacb95a5ca2ef3790ca8af6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 12/44] fix: NonLinearGaussian transition noise has the
 transition covariance

---
 mocat/src/ssm/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index 69f7dbf..e9ff6d3 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -110,7 +110,7 @@ class NonLinearGaussian(StateSpaceModel):
                           t_new: float,
                           random_key: jnp.ndarray) -> jnp.ndarray:
         return self.transition_function(x_previous, t_previous, t_new) \
-               + random.normal(random_key, shape=x_previous.shape) @ self.transition_covariance_sqrt
+               + random.normal(random_key, shape=x_previous.shape) @ self.transition_covariance_sqrt.T
 
     def likelihood_potential(self,
                              x: jnp.ndarray,
-- 
2.43.0


From b434103b8b1f166ed2c6044a1aa3722ed39c4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 13/44] fix: likelihood_potential_and_grad of StateSpaceModel
 differentiates the likelihood

---
 mocat/src/ssm/ssm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/ssm.py b/mocat/src/ssm/ssm.py
index 6891181..a41b81d 100644
--- a/mocat/src/ssm/ssm.py
+++ b/mocat/src/ssm/ssm.py
@@ -39,7 +39,7 @@ class StateSpaceModel:
 
         if not hasattr(self, 'grad_likelihood_potential'):
             self.grad_likelihood_potential = grad(self.likelihood_potential)
-            self.likelihood_potential_and_grad = value_and_grad(self.initial_potential)
+            self.likelihood_potential_and_grad = value_and_grad(self.likelihood_potential)
 
     def __repr__(self):
         return f"mocat.StateSpaceModel.{self.__class__.__name__}"
-- 
2.43.0


From 95005315097b590810f09e7e59ed9ca7b16ea4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 14/44] fix: smoothing_potential of a trajectory of length two

---
 mocat/src/ssm/ssm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mocat/src/ssm/ssm.py b/mocat/src/ssm/ssm.py
index a41b81d..705f52f 100644
--- a/mocat/src/ssm/ssm.py
+++ b/mocat/src/ssm/ssm.py
@@ -99,10 +99,10 @@ class StateSpaceModel:
             return self.initial_potential(x_all[0], t_all[0]) \
                    + self.likelihood_potential(x_all[0], y_all[0], t_all[0])
         elif len(t_all) == 2:
-            trans_pot = self.transition_potential(x_all[0], t_all[0], x_all[1], t_all[1])
-            return jnp.vstack([self.initial_potential(x_all[0], t_all[0]) + trans_pot[0] \
-                              + self.likelihood_potential(x_all[0], y_all[0], t_all[0]),
-                              trans_pot[1] + self.likelihood_potential(x_all[1], y_all[1], t_all[1])])
+            return self.initial_potential(x_all[0], t_all[0]) \
+                   + self.transition_potential(x_all[0], t_all[0], x_all[1], t_all[1]) \
+                   + self.likelihood_potential(x_all[0], y_all[0], t_all[0]) \
+                   + self.likelihood_potential(x_all[1], y_all[1], t_all[1])
         else:
             return self._smoothing_potential(x_all, y_all, t_all)
 
-- 
2.43.0


From d405555c430463f5b0a77f2a09646dc9b2291f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 15/44] fix: default likelihood_covariance_diag of
 StochasticVolatility is a diagonal

---
 mocat/src/ssm/scenarios/stochastic_volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/scenarios/stochastic_volatility.py b/mocat/src/ssm/scenarios/stochastic_volatility.py
index bf5c69e..b4613b8 100644
--- a/mocat/src/ssm/scenarios/stochastic_volatility.py
+++ b/mocat/src/ssm/scenarios/stochastic_volatility.py
@@ -49,7 +49,7 @@ class StochasticVolatility(StateSpaceModel):
         self.transition_covariance = transition_covariance
 
         if likelihood_covariance_diag is None:
-            likelihood_covariance_diag = jnp.eye(self.dim)
+            likelihood_covariance_diag = jnp.ones(self.dim)
         self.likelihood_covariance_diag = likelihood_covariance_diag
 
         super().__init__(name=name)
-- 
2.43.0


From ec286d4f269aa2e814d83b617221ae8bedb46c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 16/44] fix: StochasticVolatility transition_potential scales
 with the time gap as transition_sample

---
 mocat/src/ssm/scenarios/stochastic_volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/scenarios/stochastic_volatility.py b/mocat/src/ssm/scenarios/stochastic_volatility.py
index b4613b8..e2d928c 100644
--- a/mocat/src/ssm/scenarios/stochastic_volatility.py
+++ b/mocat/src/ssm/scenarios/stochastic_volatility.py
@@ -82,7 +82,7 @@ class StochasticVolatility(StateSpaceModel):
                              t_new: float) -> Union[float, jnp.ndarray]:
         return gaussian_potential(x_new,
                                   x_previous @ self.transition_matrix.T,
-                                  sqrt_prec=self.transition_precision_sqrt * jnp.sqrt(t_new - t_previous))
+                                  sqrt_prec=self.transition_precision_sqrt / jnp.sqrt(t_new - t_previous))
 
     def transition_sample(self,
                           x_previous: jnp.ndarray,
-- 
2.43.0


From 959604a741463e293201a76ff175ba68e3e0b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 17/44] fix: Kalman filter starts from the initial covariance,
 not its square root

---
 mocat/src/ssm/linear_gaussian/kalman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/ssm/linear_gaussian/kalman.py b/mocat/src/ssm/linear_gaussian/kalman.py
index 65676d5..f039a6b 100644
--- a/mocat/src/ssm/linear_gaussian/kalman.py
+++ b/mocat/src/ssm/linear_gaussian/kalman.py
@@ -17,7 +17,8 @@ def run_kalman_filter_for_marginals(lgssm_scenario: LinearGaussian,
                                     y: jnp.ndarray,
                                     t: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
     mu_0 = lgssm_scenario.get_initial_mean(t[0])
-    cov_0 = lgssm_scenario.get_initial_covariance_sqrt(t[0])
+    cov_sqrt_0 = lgssm_scenario.get_initial_covariance_sqrt(t[0])
+    cov_0 = cov_sqrt_0 @ cov_sqrt_0.T
 
     l_mat_0 = lgssm_scenario.get_likelihood_matrix(t[0])
     l_cov_sqrt_0 = lgssm_scenario.get_likelihood_covariance_sqrt(t[0])
-- 
2.43.0


From 05620f74222b321fc1d3dc800a802dfe2161089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 18/44] fix: Kalman smoother lag-one second moments

Used inner instead of outer products and the filtered instead of the predicted mean.
---
 mocat/src/ssm/linear_gaussian/kalman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/linear_gaussian/kalman.py b/mocat/src/ssm/linear_gaussian/kalman.py
index f039a6b..bd5963a 100644
--- a/mocat/src/ssm/linear_gaussian/kalman.py
+++ b/mocat/src/ssm/linear_gaussian/kalman.py
@@ -82,7 +82,7 @@ def run_kalman_smoother_for_marginals_and_lag_ones(lgssm_scenario: LinearGaussia
         mu_t = f_mu_t + back_kal_gain @ (mu_tplus1 - t_mat @ f_mu_t)
         cov_t = f_cov_t + back_kal_gain @ (cov_tplus1 - t_mat @ f_cov_t @ t_mat.T - t_cov) @ back_kal_gain.T
 
-        e_xt_xtp1 = f_mu_t @ mu_tplus1.T + back_kal_gain @ (cov_tplus1 + (mu_tplus1 - f_mus[i + 1]) @ mu_tplus1.T)
+        e_xt_xtp1 = jnp.outer(mu_t, mu_tplus1) + back_kal_gain @ cov_tplus1
 
         return (mu_t, cov_t), (mu_t, cov_t, e_xt_xtp1)
 
-- 
2.43.0


From e3065f06e3107211480cf7499c065fe2f39a5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 19/44] fix: ABC LinearGaussian gradients follow reassigned
 potentials

---
 mocat/src/abc/scenarios/linear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/abc/scenarios/linear_gaussian.py b/mocat/src/abc/scenarios/linear_gaussian.py
index 0f29311..b37f2d4 100644
--- a/mocat/src/abc/scenarios/linear_gaussian.py
+++ b/mocat/src/abc/scenarios/linear_gaussian.py
@@ -61,7 +61,7 @@ class LinearGaussian(ABCScenario):
     def __setattr__(self,
                     key: str,
                     value: Any):
-        self.__dict__[key] = value
+        super().__setattr__(key, value)
         if key[-10:] == 'covariance':
             reset_covariance(self, key, value)
 
-- 
2.43.0


From fbec69335c93d44802ee641332a9eb88441b1b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 20/44] fix: particle filters resample and propagate with
 different random keys

---
 mocat/src/ssm/filtering.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index 8e2efe9..1006672 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -226,9 +226,10 @@ def propagate_particle_filter(ssm_scenario: StateSpaceModel,
                               ess_threshold: float = 0.5,
                               resample_full: bool = True) -> cdict:
     n = particles.value.shape[1]
+    random_key, resample_key = random.split(random_key)
     ess_previous = particles.ess[-1]
     out_particles = cond(ess_previous < ess_threshold * n,
-                         lambda p: resample_particles(p, random_key, resample_full),
+                         lambda p: resample_particles(p, resample_key, resample_full),
                          lambda p: p,
                          particles)
 
@@ -281,14 +282,14 @@ def run_particle_filter_for_marginals(ssm_scenario: StateSpaceModel,
                              iter_ind: int) -> Tuple[cdict, cdict]:
         x_previous = samps_previous.value
         log_weight_previous = samps_previous.log_weight
-        int_rand_key = int_rand_keys[iter_ind]
+        int_rand_key, resample_key = random.split(int_rand_keys[iter_ind])
 
         ess_previous = samps_previous.ess
         resample_bool = ess_previous < (ess_threshold * n)
         x_res = cond(resample_bool,
                      _resample,
                      lambda tup: tup[0],
-                     (x_previous, log_weight_previous, int_rand_key))
+                     (x_previous, log_weight_previous, resample_key))
         log_weight_res = jnp.where(resample_bool, jnp.zeros(n), log_weight_previous)
 
         split_keys = random.split(int_rand_key, len(x_previous))
-- 
2.43.0


From fe958ce22ebf4bac58549e9fbc5e34ca28efd4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 21/44] fix: propagate_particle_filter keeps one row per
 observation

---
 mocat/src/ssm/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index 1006672..56a3a17 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -247,7 +247,7 @@ def propagate_particle_filter(ssm_scenario: StateSpaceModel,
 
     out_particles.value = jnp.append(out_particles.value, x_new[jnp.newaxis], axis=0)
     out_particles.log_weight = jnp.append(out_particles.log_weight, log_weight_new[jnp.newaxis], axis=0)
-    out_particles.y = jnp.append(out_particles.y, y_new[jnp.newaxis])
+    out_particles.y = jnp.append(out_particles.y, jnp.reshape(y_new, (1,) + out_particles.y.shape[1:]), axis=0)
     out_particles.t = jnp.append(out_particles.t, t_new)
     out_particles.ess = jnp.append(out_particles.ess, ess_log_weight(log_weight_new))
     return out_particles
-- 
2.43.0


From 8674e983e20c81b10bcdcf1a50e01db42a3136ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 22/44] fix: online smoothers stitch, resample and propagate
 with different random keys

---
 mocat/src/ssm/online_smoothing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index 3269826..159eb59 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -223,10 +223,11 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
         particles.num_transition_evals = jnp.array(0)
 
     n = particles.value.shape[1]
+    random_key, resample_key, stitch_key = random.split(random_key, 3)
 
     # Check particles are unweighted
     out_particles = cond(ess_log_weight(jnp.atleast_2d(particles.log_weight)[-1]) < (n - 1e-3),
-                         lambda p: resample_particles(p, random_key, True),
+                         lambda p: resample_particles(p, resample_key, True),
                          lambda p: p.copy(),
                          particles)
     out_particles.log_weight = jnp.zeros(n)
@@ -272,7 +273,7 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
                                                                         out_particles.value[stitch_ind_min_1:],
                                                                         out_particles.log_weight,
                                                                         out_particles.t[stitch_ind],
-                                                                        random_key,
+                                                                        stitch_key,
                                                                         maximum_rejections,
                                                                         init_bound_param,
                                                                         bound_inflation)
@@ -346,7 +347,7 @@ def propagate_particle_smoother_bs(ssm_scenario: StateSpaceModel,
                                                backward_sim.value,
                                                jnp.zeros(n),
                                                out_particles.t[stitch_ind],
-                                               random_key,
+                                               split_keys[3],
                                                maximum_rejections,
                                                init_bound_param,
                                                bound_inflation)
-- 
2.43.0


From 385b4c4cb56be1bd0151aab072732cf824f1bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 23/44] fix: leapfrog integrators do not reuse compiled code of
 a since modified scenario

---
 mocat/src/mcmc/qn_underdamped.py | 4 +---
 mocat/src/utils.py               | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/mocat/src/mcmc/qn_underdamped.py b/mocat/src/mcmc/qn_underdamped.py
index 6f1e3e6..8955187 100644
--- a/mocat/src/mcmc/qn_underdamped.py
+++ b/mocat/src/mcmc/qn_underdamped.py
@@ -5,11 +5,10 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
-from functools import partial
 from typing import Tuple, Union, Callable
 
 import jax.numpy as jnp
-from jax import random, jit, vmap
+from jax import random, vmap
 from jax.lax import scan
 
 from mocat.src.core import cdict, Scenario
@@ -223,7 +222,6 @@ class QNUnderdamped(MCMCSampler):
         return alpha
 
 
-@partial(jit, static_argnums=(0, 1))
 def _bfgs_leapfrog(prior_potential_and_grad: Callable,
                    likelihood_potential_and_grad: Callable,
                    state: cdict,
diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index b81a83b..13c8550 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -105,7 +105,6 @@ def gaussian_potential(x: jnp.ndarray,
     return out_val + neg_log_z
 
 
-@partial(jit, static_argnums=(0, 1))
 def _leapfrog(prior_potential_and_grad: Callable,
               likelihood_potential_and_grad: Callable,
               state: cdict,
-- 
2.43.0


From 4f4f11efe2e2d0e2a00a9309026163fca8dae8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 24/44] fix: filters and smoothers do not reuse compiled code
 of a since modified model or filter

---
 mocat/src/ssm/backward.py           |  8 +++---
 mocat/src/ssm/filtering.py          | 12 ++++-----
 mocat/src/ssm/nonlinear_gaussian.py |  9 +++----
 mocat/src/ssm/online_smoothing.py   | 10 ++++----
 mocat/src/utils.py                  | 40 ++++++++++++++++++++++++++++-
 5 files changed, 58 insertions(+), 21 deletions(-)

diff --git a/mocat/src/ssm/backward.py b/mocat/src/ssm/backward.py
index ff332ba..982367a 100644
--- a/mocat/src/ssm/backward.py
+++ b/mocat/src/ssm/backward.py
@@ -7,14 +7,14 @@
 
 from typing import Tuple
 from time import time
-from functools import partial
 
-from jax import numpy as jnp, random, vmap, jit
+from jax import numpy as jnp, random, vmap
 from jax.lax import while_loop, scan, cond, map
 
 from mocat.src.core import cdict
 from mocat.src.ssm.ssm import StateSpaceModel
 from mocat.src.ssm.filtering import ParticleFilter, run_particle_filter_for_marginals
+from mocat.src.utils import jit_static_objects
 
 
 def full_resample_single(ssm_scenario: StateSpaceModel,
@@ -171,7 +171,7 @@ def rejection_resampling(ssm_scenario: StateSpaceModel,
     return final_particles, num_transition_evals
 
 
-@partial(jit, static_argnums=(0, 2))
+@jit_static_objects(static_argnums=(0, 2))
 def backward_simulation_rejection(ssm_scenario: StateSpaceModel,
                                   marginal_particles: cdict,
                                   n_samps: int,
@@ -211,7 +211,7 @@ def backward_simulation_rejection(ssm_scenario: StateSpaceModel,
     return out_samps
 
 
-@partial(jit, static_argnums=(0, 2))
+@jit_static_objects(static_argnums=(0, 2))
 def backward_simulation_full(ssm_scenario: StateSpaceModel,
                              marginal_particles: cdict,
                              n_samps: int,
diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index 56a3a17..e30f211 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -5,16 +5,16 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
-from functools import partial
 from typing import Union, Tuple
 
 import jax.numpy as jnp
-from jax import random, vmap, jit
+from jax import random, vmap
 from jax.lax import cond, scan
 
 from mocat.src.core import cdict
 from mocat.src.ssm.ssm import StateSpaceModel
 from mocat.src.metrics import ess_log_weight
+from mocat.src.utils import jit_static_objects
 
 
 class ParticleFilter:
@@ -53,7 +53,7 @@ class ParticleFilter:
                            t: float) -> Union[float, jnp.ndarray]:
         return -ssm_scenario.likelihood_potential(x, y, t)
 
-    @partial(jit, static_argnums=(0, 1))
+    @jit_static_objects(static_argnums=(0, 1))
     def initial_sample_vectorised(self,
                                   ssm_scenario: StateSpaceModel,
                                   y: jnp.ndarray,
@@ -62,7 +62,7 @@ class ParticleFilter:
         init_vals = vmap(self.initial_sample, (None, None, None, 0))(ssm_scenario, y, t, random_keys)
         return init_vals
 
-    @partial(jit, static_argnums=(0, 1))
+    @jit_static_objects(static_argnums=(0, 1))
     def initial_sample_and_weight_vectorised(self,
                                              ssm_scenario: StateSpaceModel,
                                              y: jnp.ndarray,
@@ -107,7 +107,7 @@ class ParticleFilter:
                - ssm_scenario.likelihood_potential(x_new, y_new, t_new) \
                + self.proposal_potential(ssm_scenario, x_previous, t_previous, x_new, y_new, t_new)
 
-    @partial(jit, static_argnums=(0, 1))
+    @jit_static_objects(static_argnums=(0, 1))
     def proposal_sample_vectorised(self,
                                    ssm_scenario: StateSpaceModel,
                                    x_previous: jnp.ndarray,
@@ -121,7 +121,7 @@ class ParticleFilter:
                                                                            random_keys)
         return x_new
 
-    @partial(jit, static_argnums=(0, 1))
+    @jit_static_objects(static_argnums=(0, 1))
     def propose_and_intermediate_weight_vectorised(self,
                                                    ssm_scenario: StateSpaceModel,
                                                    x_previous: jnp.ndarray,
diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index e9ff6d3..a02d5cd 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -6,13 +6,12 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
-from functools import partial
 from typing import Union, Any, Tuple
 
-from jax import numpy as jnp, random, vmap, jit
+from jax import numpy as jnp, random, vmap
 
 from mocat.src.ssm.ssm import StateSpaceModel
-from mocat.src.utils import gaussian_potential, extract_dimension, reset_covariance, kalman_gain
+from mocat.src.utils import gaussian_potential, extract_dimension, reset_covariance, kalman_gain, jit_static_objects
 from mocat.src.ssm.filtering import ParticleFilter
 
 
@@ -261,7 +260,7 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
                                    sqrt_prec=self.weight_precision_sqrt,
                                    det_prec=self.weight_precision_det)
 
-    @partial(jit, static_argnums=(0, 1))
+    @jit_static_objects(static_argnums=(0, 1))
     def propose_and_intermediate_weight_vectorised(self,
                                                    ssm_scenario: NonLinearGaussian,
                                                    x_previous: jnp.ndarray,
@@ -322,7 +321,7 @@ class EnsembleKalmanFilter(ParticleFilter):
                  + random.normal(random_keys[0], shape=rand_shape) @ self.initial_conditioned_covariance_sqrt
         return init_x, jnp.zeros(len(random_keys))
 
-    @partial(jit, static_argnums=(0, 1))
+    @jit_static_objects(static_argnums=(0, 1))
     def propose_and_intermediate_weight_vectorised(self,
                                                    ssm_scenario: NonLinearGaussian,
                                                    x_previous: jnp.ndarray,
diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index 159eb59..c2ffd06 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -6,9 +6,8 @@
 ########################################################################################################################
 
 from typing import Tuple
-from functools import partial
 
-from jax import numpy as jnp, random, vmap, jit
+from jax import numpy as jnp, random, vmap
 from jax.lax import while_loop, cond, map
 
 from mocat.src.core import cdict
@@ -16,6 +15,7 @@ from mocat.src.ssm.ssm import StateSpaceModel
 from mocat.src.ssm.filtering import ParticleFilter, resample_particles, propagate_particle_filter
 from mocat.src.ssm.backward import backward_simulation
 from mocat.src.metrics import ess_log_weight
+from mocat.src.utils import jit_static_objects
 
 
 def full_stitch_single(ssm_scenario: StateSpaceModel,
@@ -174,7 +174,7 @@ def rejection_stitching(ssm_scenario: StateSpaceModel,
     return x1_final_inds, num_transition_evals
 
 
-@partial(jit, static_argnums=(0,))
+@jit_static_objects(static_argnums=(0,))
 def fixed_lag_stitching(ssm_scenario: StateSpaceModel,
                         early_block: jnp.ndarray,
                         t: float,
@@ -208,7 +208,7 @@ def fixed_lag_stitching(ssm_scenario: StateSpaceModel,
     return jnp.append(early_block, recent_block[1:, recent_stitched_inds], axis=0), num_transition_evals
 
 
-@partial(jit, static_argnums=(0, 1, 6, 7))
+@jit_static_objects(static_argnums=(0, 1, 6, 7))
 def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
                                    particle_filter: ParticleFilter,
                                    particles: cdict,
@@ -282,7 +282,7 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
     return out_particles
 
 
-@partial(jit, static_argnums=(0, 1, 6, 8))
+@jit_static_objects(static_argnums=(0, 1, 6, 8))
 def propagate_particle_smoother_bs(ssm_scenario: StateSpaceModel,
                                    particle_filter: ParticleFilter,
                                    particles: cdict,
diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 13c8550..973b4f6 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -5,7 +5,8 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
-from functools import partial
+from functools import partial, wraps
+from inspect import signature
 from typing import Any, Union, Callable, Tuple
 from warnings import warn
 
@@ -14,6 +15,43 @@ from jax.lax import scan, while_loop, cond
 from mocat.src.core import cdict
 
 
+class _StaticObject:
+    # Hashable jit argument, equal only for the same object with the same attribute values
+
+    def __init__(self, obj: Any):
+        self.obj = obj
+        self.attributes = dict(vars(obj))
+
+    def __hash__(self):
+        return id(self.obj)
+
+    def __eq__(self, other: Any) -> bool:
+        return isinstance(other, _StaticObject) and self.obj is other.obj \
+               and self.attributes.keys() == other.attributes.keys() \
+               and all(value is other.attributes[key] for key, value in self.attributes.items())
+
+
+def jit_static_objects(static_argnums: Tuple[int, ...]) -> Callable:
+    # jit where static arguments may be mutable objects (scenarios, filters): recompiles if their attributes are reset
+    def decorate(func: Callable) -> Callable:
+        func_signature = signature(func)
+
+        @partial(jit, static_argnums=static_argnums)
+        def jitted_func(*args):
+            return func(*(a.obj if isinstance(a, _StaticObject) else a for a in args))
+
+        @wraps(func)
+        def wrapped_func(*args, **kwargs):
+            bound = func_signature.bind(*args, **kwargs)
+            bound.apply_defaults()
+            return jitted_func(*(_StaticObject(a) if i in static_argnums and hasattr(a, '__dict__') else a
+                                 for i, a in enumerate(bound.arguments.values())))
+
+        return wrapped_func
+
+    return decorate
+
+
 @partial(jit, static_argnums=(0,))
 def leave_one_out_indices(n: int,
                           remove_index: int) -> jnp.ndarray:
-- 
2.43.0


From b2f73e2805ff103f49a26a91a0549b847da3458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 25/44] fix: reassigning a scenario's potential updates its
 tempered potential and gradients

---
 mocat/src/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mocat/src/core.py b/mocat/src/core.py
index 950f907..b69ce37 100644
--- a/mocat/src/core.py
+++ b/mocat/src/core.py
@@ -197,7 +197,8 @@ class Scenario:
                 = lambda x, temperature, random_key=None: self.prior_potential(x, random_key) \
                                                           + temperature * self.likelihood_potential(x, random_key)
 
-            self.potential = lambda x, random_key=None: self.tempered_potential(x, self.temperature, random_key)
+            self.__dict__['potential'] \
+                = lambda x, random_key=None: self.tempered_potential(x, self.temperature, random_key)
 
         if init_grad:
             self.init_grad()
@@ -205,6 +206,14 @@ class Scenario:
     def __setattr__(self, key, value):
         self.__dict__[key] = value
         if key in ('potential', 'prior_potential', 'likelihood_potential') and hasattr(self, 'grad_potential'):
+            if key == 'potential':
+                # As in __init__, untempered potential with no prior
+                self.__dict__['prior_potential'] = lambda x, random_key=None: jnp.array(0.)
+                self.__dict__['likelihood_potential'] = value
+                if not hasattr(self, 'temperature'):
+                    self.__dict__['temperature'] = 1.
+                self.__dict__['potential'] = lambda x, random_key=None: self.tempered_potential(x, self.temperature,
+                                                                                                random_key)
             self.init_grad()
 
     def init_grad(self):
-- 
2.43.0


From e6eaafac269d83c35f22c387b95b797a4d48983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 26/44] fix: ABC SMC threshold_schedule can be set to None more
 than once

---
 mocat/src/abc/smc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/abc/smc.py b/mocat/src/abc/smc.py
index 68d8feb..7e628bb 100644
--- a/mocat/src/abc/smc.py
+++ b/mocat/src/abc/smc.py
@@ -33,7 +33,8 @@ class ABCSMCSampler(ABCSampler, SMCSampler):
     def __setattr__(self, key, value):
         if key == 'threshold_schedule':
             if value is None:
-                if hasattr(self, 'threshold_schedule') and self.max_iter == len(self.threshold_schedule):
+                if hasattr(self, 'threshold_schedule') and self.threshold_schedule is not None \
+                        and self.max_iter == len(self.threshold_schedule):
                     self.max_iter = int(1e4)
                 self.next_threshold = self.next_threshold_adaptive
             else:
-- 
2.43.0


From c51b9ed4317fb18a0676e17e3a078202d1c21714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 27/44] fix: lotka_volterra_simulate with times before the
 first event or not starting at zero

---
 mocat/src/abc/scenarios/lotka_volterra.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mocat/src/abc/scenarios/lotka_volterra.py b/mocat/src/abc/scenarios/lotka_volterra.py
index 1c66730..194253e 100644
--- a/mocat/src/abc/scenarios/lotka_volterra.py
+++ b/mocat/src/abc/scenarios/lotka_volterra.py
@@ -40,14 +40,16 @@ def lotka_volterra_simulate(initial_prey_pred: jnp.ndarray,
                             max_iter: int = 10000) -> jnp.ndarray:
     max_time = jnp.max(times)
 
-    (simulated_pred_prey, simulated_times), _, _ = _while_loop_stacked(lambda carry, extra: carry[1] < max_time,
-                                                                       lotka_volterra_single_step,
-                                                                       ((initial_prey_pred, times[0]),
-                                                                        (params, random_key)),
-                                                                       max_iter)
-
-    simulated_times = jnp.where(simulated_times == 0, jnp.inf, simulated_times)
-    return simulated_pred_prey[jnp.searchsorted(simulated_times, times[1:]) - 1]
+    (simulated_pred_prey, simulated_times), _, final_iter = _while_loop_stacked(lambda carry, extra: carry[1] < max_time,
+                                                                                lotka_volterra_single_step,
+                                                                                ((initial_prey_pred, times[0]),
+                                                                                 (params, random_key)),
+                                                                                max_iter)
+
+    # Rows from final_iter onwards are not simulated
+    simulated_times = jnp.where(jnp.arange(len(simulated_times)) < final_iter, simulated_times, jnp.inf)
+    pred_prey = jnp.append(initial_prey_pred[jnp.newaxis], simulated_pred_prey, axis=0)
+    return pred_prey[jnp.searchsorted(simulated_times, times[1:])]
 
 
 class LotkaVolterra(ABCScenario):
-- 
2.43.0


From 0e502a8580f052f8365fa915f6cba474335335ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 28/44] fix: SVGD default ensemble_batchsize follows n when the
 sampler is reused

---
 mocat/src/transport/svgd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mocat/src/transport/svgd.py b/mocat/src/transport/svgd.py
index 18f41d7..57f5b3e 100644
--- a/mocat/src/transport/svgd.py
+++ b/mocat/src/transport/svgd.py
@@ -82,14 +82,15 @@ class SVGD(TransportSampler):
                 **kwargs) -> Tuple[cdict, cdict]:
         initial_state, initial_extra = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
 
-        if self.parameters.ensemble_batchsize is None:
-            self.parameters.ensemble_batchsize = n
+        batchsize = initial_extra.parameters.ensemble_batchsize
+        if batchsize is None:
+            batchsize = n
             initial_extra.parameters.ensemble_batchsize = n
 
-        if self.parameters.ensemble_batchsize == n:
+        if batchsize == n:
             self.get_batch_inds = lambda _: jnp.repeat(jnp.arange(n)[None], n, axis=0)
         else:
-            self.get_batch_inds = lambda rk: random.choice(rk, n, shape=(n, self.parameters.ensemble_batchsize,))
+            self.get_batch_inds = lambda rk: random.choice(rk, n, shape=(n, batchsize,))
 
         del initial_extra.parameters.stepsize
 
-- 
2.43.0


From 706d78f50222402d5e1471f943df5033b2072223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 29/44] fix: SVGD adaptation does not overwrite the parameters
 of its kernel

---
 mocat/src/transport/svgd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mocat/src/transport/svgd.py b/mocat/src/transport/svgd.py
index 57f5b3e..d0b2688 100644
--- a/mocat/src/transport/svgd.py
+++ b/mocat/src/transport/svgd.py
@@ -94,6 +94,9 @@ class SVGD(TransportSampler):
 
         del initial_extra.parameters.stepsize
 
+        # Adapted during the run, sampler and kernel keep their own
+        initial_extra.parameters.kernel_params = initial_extra.parameters.kernel_params.copy()
+
         random_keys = random.split(initial_extra.random_key, n + 1)
         initial_extra.random_key = random_keys[-1]
 
-- 
2.43.0


From 1275212427437c9c754995e6a82893dc4265d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 30/44] fix: TEKI temperature_schedule can omit the initial
 zero and be unset

---
 mocat/src/transport/teki.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index a2240f0..6412ec2 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -59,6 +59,13 @@ class TemperedEKI(TransportSampler):
         self.prior_stds = None
 
     def __setattr__(self, key, value):
+        if key == 'temperature_schedule':
+            if value is not None and value[0] != 0.:
+                value = jnp.append(0., jnp.array(value))
+            elif value is None and getattr(self, key, None) is not None:
+                if self.max_iter == len(self.temperature_schedule):
+                    self.max_iter = int(1e4)
+                self.__dict__.pop('next_temperature', None)
         super().__setattr__(key, value)
         if key == 'temperature_schedule':
             if value is not None:
-- 
2.43.0


From 89ac5874a0984bfe82b29816c749990523932e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 31/44] fix: default TEKI schedule ends at max_temperature

---
 mocat/src/transport/teki.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index 6412ec2..dacc89f 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -96,7 +96,8 @@ class TemperedEKI(TransportSampler):
             # self.next_temperature = lambda state, extra: (1 + gamm) ** extra.iter - 1
 
             gamm = 2 ** (1 / 50)
-            self.next_temperature = lambda state, extra: jnp.round(gamm ** extra.iter - 1, 4)
+            self.next_temperature = lambda state, extra: jnp.minimum(jnp.round(gamm ** extra.iter - 1, 4),
+                                                                     self.max_temperature)
 
         if not hasattr(initial_state, 'simulated_data'):
             random_keys = random.split(initial_extra.random_key, 2 * n)
-- 
2.43.0


From c9845c1b2706d8dc5caea2509c0c02d6de372979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 32/44] fix: TEKI termination does not use the constraint of an
 earlier scenario

---
 mocat/src/transport/teki.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index dacc89f..f45d7c4 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -84,12 +84,14 @@ class TemperedEKI(TransportSampler):
         if not hasattr(scenario, 'data') or scenario.data is None:
             raise AttributeError(f'{self.name} requires scenario to have data attribute != None')
 
-        if self.ensemble_std is None:
+        if self.ensemble_std is not None:
+            self._ensemble_std = self.ensemble_std
+        else:
             ensemble_std = lambda vals: jnp.std(vals, axis=0, ddof=1)
             if hasattr(scenario, 'constrain'):
-                self.ensemble_std = lambda vals: ensemble_std(scenario.constrain(vals))
+                self._ensemble_std = lambda vals: ensemble_std(scenario.constrain(vals))
             else:
-                self.ensemble_std = ensemble_std
+                self._ensemble_std = ensemble_std
 
         if not hasattr(self, 'next_temperature'):
             # gamm = scenario.dim ** -0.5
@@ -118,7 +120,7 @@ class TemperedEKI(TransportSampler):
                               extra: cdict) -> bool:
         return jnp.any(jnp.array([ensemble_state.temperature >= self.max_temperature,
                                   extra.iter >= self.max_iter,
-                                  jnp.all(self.ensemble_std(ensemble_state.value) <
+                                  jnp.all(self._ensemble_std(ensemble_state.value) <
                                           (extra.parameters.term_std * self.prior_stds)),
                                   jnp.any(jnp.isnan(ensemble_state.value))]))
 
-- 
2.43.0


From c2e3b4fb07fd62cf38c197bb3b898e7df5c34ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 33/44] fix: integrated_autocorrelation_time of slowly mixing
 chains does not stop at the first lag

---
 mocat/src/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/metrics.py b/mocat/src/metrics.py
index c04ba26..3ec86ad 100644
--- a/mocat/src/metrics.py
+++ b/mocat/src/metrics.py
@@ -53,7 +53,8 @@ def integrated_autocorrelation_time(sample: Union[jnp.ndarray, cdict],
     if max_lag_iat is None:
         c = 5
         m_minus_c_tau = jnp.arange(1, len(iats_all) + 1) - c * iats_all
-        max_lag_iat = jnp.argmax(m_minus_c_tau > 0)
+        # Last lag if no window is long enough
+        max_lag_iat = jnp.where(jnp.any(m_minus_c_tau > 0), jnp.argmax(m_minus_c_tau > 0), len(iats_all) - 1)
 
     return iats_all[max_lag_iat]
 
-- 
2.43.0


From d9b45fb9346adbcd95c91c0818cf201ad1fccf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 34/44] fix: run does not modify the initial_state and
 initial_extra it is given

---
 mocat/src/sample.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mocat/src/sample.py b/mocat/src/sample.py
index 9fdd73a..f705fdb 100644
--- a/mocat/src/sample.py
+++ b/mocat/src/sample.py
@@ -120,8 +120,12 @@ def run(scenario: Scenario,
 
     sampler.n = n
 
-    if initial_extra is None:
-        initial_extra = cdict()
+    # Leave the given cdicts as they are
+    if initial_state is not None:
+        initial_state = initial_state.copy()
+    initial_extra = cdict() if initial_extra is None else initial_extra.copy()
+    if hasattr(initial_extra, 'parameters'):
+        initial_extra.parameters = initial_extra.parameters.copy()
     if random_key is not None:
         initial_extra.random_key = random_key
 
-- 
2.43.0


From 4a6f1e4b366bf98e616543e1502536bdfef9c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 35/44] fix: adaptive temperatures jump to the maximum when it
 meets the threshold

---
 mocat/src/transport/smc.py  | 4 +++-
 mocat/src/transport/teki.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mocat/src/transport/smc.py b/mocat/src/transport/smc.py
index 625b814..1d05030 100644
--- a/mocat/src/transport/smc.py
+++ b/mocat/src/transport/smc.py
@@ -323,7 +323,9 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
                      temperature_bounds,
                      max_iter=self.parameters.max_bisection_iter,
                      tol=self.parameters.bisection_tol)
-        return bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))]
+        # No temperature up to the maximum falls below the threshold
+        return jnp.where(jnp.all(bisect_out_evals > 0),
+                         temperature_bounds[1], bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))])
 
     def clean_mcmc_chain(self,
                          chain_state: cdict,
diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index f45d7c4..4c73f71 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -192,4 +192,6 @@ class AdaptiveTemperedEKI(TemperedEKI):
                      max_iter=self.parameters.max_bisection_iter,
                      tol=self.parameters.bisection_tol)
 
-        return bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))]
+        # No temperature up to the maximum falls below the threshold
+        return jnp.where(jnp.all(bisect_out_evals > 0),
+                         temperature_bounds[1], bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))])
-- 
2.43.0


From c5e8c7a5069756b265a9a4abf2c32cb6c64c2207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 36/44] fix: SMC startup of the mcmc sampler uses a different
 random key for each particle

---
 mocat/src/transport/smc.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mocat/src/transport/smc.py b/mocat/src/transport/smc.py
index 1d05030..1b61c41 100644
--- a/mocat/src/transport/smc.py
+++ b/mocat/src/transport/smc.py
@@ -287,12 +287,17 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
         initial_state.ess = jnp.repeat(jnp.exp(log_ess_log_weight(initial_state.log_weight)), n)
         initial_state.log_norm_constant = logsumexp(initial_state.log_weight, b=1 / n) * jnp.ones(n)
 
-        initial_state, initial_extra = vmap(
-            lambda state: self.mcmc_sampler.startup(scenario,
-                                                    n,
-                                                    state,
-                                                    initial_extra))(initial_state)
-        initial_extra = initial_extra[0]
+        random_keys = random.split(initial_extra.random_key, n + 1)
+
+        def mcmc_startup(state: cdict,
+                         random_key: jnp.ndarray) -> Tuple[cdict, cdict]:
+            mcmc_extra = initial_extra.copy()
+            mcmc_extra.random_key = random_key
+            return self.mcmc_sampler.startup(scenario, n, state, mcmc_extra)
+
+        initial_state, mcmc_extras = vmap(mcmc_startup)(initial_state, random_keys[:n])
+        initial_extra = mcmc_extras[0]
+        initial_extra.random_key = random_keys[-1]
         return initial_state, initial_extra
 
     def resample_criterion(self,
-- 
2.43.0


From bcd6160d839493b9158badb6f371ad6be2c40887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 37/44] fix: RandomWalk does not carry stale gradients of its
 initial state

---
 mocat/src/mcmc/standard_mcmc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mocat/src/mcmc/standard_mcmc.py b/mocat/src/mcmc/standard_mcmc.py
index a69753f..bb44c58 100644
--- a/mocat/src/mcmc/standard_mcmc.py
+++ b/mocat/src/mcmc/standard_mcmc.py
@@ -38,6 +38,11 @@ class RandomWalk(MCMCSampler):
                                                        initial_state, initial_extra, **kwargs)
         initial_extra.random_key, scen_key = random.split(initial_extra.random_key)
         initial_state.potential = scenario.potential(initial_state.value, scen_key)
+
+        # Gradients are not updated by random-walk
+        for key in ('grad_potential', 'grad_prior_potential', 'grad_likelihood_potential'):
+            if hasattr(initial_state, key):
+                delattr(initial_state, key)
         return initial_state, initial_extra
 
     def proposal(self,
-- 
2.43.0


From 177b1f7ac0904e7e694dbaf067b732a06d059d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 38/44] fix: adaptive ABC SMC thresholds never increase

---
 mocat/src/abc/smc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mocat/src/abc/smc.py b/mocat/src/abc/smc.py
index 7e628bb..3a0b126 100644
--- a/mocat/src/abc/smc.py
+++ b/mocat/src/abc/smc.py
@@ -164,7 +164,9 @@ class MetropolisedABCSMCSampler(ABCSMCSampler):
     def next_threshold_adaptive(self,
                                 state: cdict,
                                 extra: cdict) -> float:
-        return jnp.quantile(state.distance, extra.parameters.ess_threshold_retain * state.ess[0] / state.ess.size)
+        return jnp.minimum(jnp.quantile(state.distance,
+                                        extra.parameters.ess_threshold_retain * state.ess[0] / state.ess.size),
+                           state.threshold[0])
 
     def log_weight(self,
                    previous_ensemble_state: cdict,
-- 
2.43.0


From af617bb8430a52dde2fa5a8843bc8eae1c4e4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 39/44] fix: skipped updates do not influence the BFGS
 regularisation

---
 mocat/src/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 973b4f6..0123fd8 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -361,18 +361,18 @@ def _bfgs_sqrt_pqut(vals: jnp.ndarray,
     s = vals[1:] - vals[:-1]
     y = grads[1:] - grads[:-1]
 
+    m, d = s.shape
+
+    update_bools = jnp.ones(m) * update_bools
+
     sit_Binit_si_all = jnp.square(s * init_hessian_sqrt_diag).sum(-1)
     sty = (s * y).sum(-1)
-    rats = jnp.where(sit_Binit_si_all < 1e-10, -jnp.inf, -sty/sit_Binit_si_all)
+    rats = jnp.where(jnp.logical_and(sit_Binit_si_all >= 1e-10, update_bools), -sty/sit_Binit_si_all, -jnp.inf)
     lambd = jnp.maximum(0., rats.max() + r)
     lambd = lambd * init_hessian_sqrt_diag ** 2
 
     y = y + lambd * s
 
-    m, d = s.shape
-
-    update_bools = jnp.ones(m) * update_bools
-
     def body_fun(val, i):
         us, ts = val
         sit_yi = jnp.dot(s[i], y[i])
-- 
2.43.0


From 0926d3ee935ee52c7161441ebda89e15694a9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 40/44] fix: determinants of BFGS factors with a scalar initial
 diagonal

---
 mocat/src/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 0123fd8..2fdaaf9 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -449,7 +449,7 @@ def bfgs_sqrt_transpose_prod(ps: jnp.ndarray,
 def _bfgs_sqrt_det(ps: jnp.ndarray,
                    qs: jnp.ndarray,
                    init_diag: jnp.ndarray) -> jnp.ndarray:
-    return jnp.prod(init_diag) * (1 - vmap(jnp.dot)(ps, qs)).prod()
+    return jnp.prod(init_diag * jnp.ones(ps.shape[-1])) * (1 - vmap(jnp.dot)(ps, qs)).prod()
 
 
 def bfgs_sqrt_det(ps: jnp.ndarray,
@@ -462,7 +462,7 @@ def bfgs_sqrt_det(ps: jnp.ndarray,
 def _bfgs_sqrt_log_abs_det(ps: jnp.ndarray,
                    qs: jnp.ndarray,
                    init_diag: jnp.ndarray) -> jnp.ndarray:
-    return jnp.log(jnp.abs(init_diag)).sum() + jnp.log(jnp.abs(1 - vmap(jnp.dot)(ps, qs))).sum()
+    return jnp.log(jnp.abs(init_diag * jnp.ones(ps.shape[-1]))).sum() + jnp.log(jnp.abs(1 - vmap(jnp.dot)(ps, qs))).sum()
 
 
 def bfgs_sqrt_log_abs_det(ps: jnp.ndarray,
-- 
2.43.0


From c5912831cc1d1c6100858192c36965c761bd76f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:54 +0000
Subject: [PATCH 41/44] fix: random_key is optional in one-dimensional prior
 and likelihood potentials

---
 mocat/src/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/core.py b/mocat/src/core.py
index b69ce37..1058fb7 100644
--- a/mocat/src/core.py
+++ b/mocat/src/core.py
@@ -141,7 +141,7 @@ def clean_1d(scen, attr):
         setattr(scen, '_' + attr, getattr(scen, attr))
 
         def cleaned_func(x: Union[jnp.ndarray, float],
-                         random_key: jnp.ndarray) -> float:
+                         random_key: jnp.ndarray = None) -> float:
             x = jnp.atleast_1d(x)
             x = jnp.reshape(x, (x.size, 1))
             return jnp.squeeze(getattr(scen, '_' + attr)(x, random_key))
-- 
2.43.0


From 785d5abf87ebcd9868c517e34ab3736e1abdddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 42/44] fix: the first row of importance ABC is drawn from the
 importance proposal

---
 mocat/src/abc/importance.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mocat/src/abc/importance.py b/mocat/src/abc/importance.py
index 5099c21..90ba9ad 100644
--- a/mocat/src/abc/importance.py
+++ b/mocat/src/abc/importance.py
@@ -10,7 +10,7 @@ from typing import Tuple
 
 from jax import numpy as jnp, random
 from mocat.src.abc.abc import ABCScenario, ABCSampler
-from mocat.src.core import cdict, is_implemented
+from mocat.src.core import cdict
 
 
 class ImportanceABC(ABCSampler):
@@ -41,12 +41,8 @@ class ImportanceABC(ABCSampler):
                 initial_extra: cdict = None,
                 **kwargs) -> Tuple[cdict, cdict]:
         if initial_state is None:
-            if is_implemented(abc_scenario.prior_sample):
-                initial_extra.random_key, sub_key = random.split(initial_extra.random_key)
-                init_vals = abc_scenario.prior_sample(sub_key)
-            else:
-                init_vals = jnp.zeros(abc_scenario.dim)
-            initial_state = cdict(value=init_vals)
+            initial_extra.random_key, sub_key = random.split(initial_extra.random_key)
+            initial_state = cdict(value=self.importance_proposal(abc_scenario, sub_key))
 
         self.max_iter = n - 1
 
-- 
2.43.0


From a2381ab5915f684ac1c96cf92564296b40af99ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 43/44] fix: exponential priors of Lotka-Volterra and SIR have
 no density at negative rates

---
 mocat/src/abc/scenarios/SIR.py            | 2 +-
 mocat/src/abc/scenarios/lotka_volterra.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/abc/scenarios/SIR.py b/mocat/src/abc/scenarios/SIR.py
index da3afa4..c8e2332 100644
--- a/mocat/src/abc/scenarios/SIR.py
+++ b/mocat/src/abc/scenarios/SIR.py
@@ -63,7 +63,7 @@ class SIR(ABCScenario):
     def prior_potential(self,
                         x: jnp.ndarray,
                         random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        return (self.prior_rates * x).sum()
+        return jnp.where(jnp.all(x >= 0), (self.prior_rates * x).sum(), jnp.inf)
 
     def simulate_times_and_si(self,
                               x: jnp.ndarray,
diff --git a/mocat/src/abc/scenarios/lotka_volterra.py b/mocat/src/abc/scenarios/lotka_volterra.py
index 194253e..53d2dd0 100644
--- a/mocat/src/abc/scenarios/lotka_volterra.py
+++ b/mocat/src/abc/scenarios/lotka_volterra.py
@@ -69,7 +69,7 @@ class LotkaVolterra(ABCScenario):
     def prior_potential(self,
                         x: jnp.ndarray,
                         random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        return (self.prior_rates * x).sum()
+        return jnp.where(jnp.all(x >= 0), (self.prior_rates * x).sum(), jnp.inf)
 
     def likelihood_sample(self,
                           x: jnp.ndarray,
-- 
2.43.0


From 0242c07d8e3f66207cb4863325046ce140116d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 44/44] fix: ksd is unaffected by a constant added to the
 log-weights

---
 mocat/src/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/metrics.py b/mocat/src/metrics.py
index 3ec86ad..4293ae2 100644
--- a/mocat/src/metrics.py
+++ b/mocat/src/metrics.py
@@ -108,7 +108,7 @@ def ksd(sample: Union[jnp.ndarray, cdict],
         get_batch_inds = lambda i: random_inds[i]
 
     if log_weight is not None:
-        weights = jnp.exp(log_weight)
+        weights = jnp.exp(log_weight - jnp.max(log_weight))
     else:
         weights = jnp.ones(n)
 
-- 
2.43.0

