From b00399094db4ab8a27925b99bf3068429538ba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 01/28] fix: use the rate of the gamma prior in the
 gamma-Poisson posterior

The second input of an Aesara gamma node is its scale, so the posterior rate
is 1 / scale + 1 instead of scale + 1.
---
 aemcmc/conjugates.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 2c2617f..4df61c9 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -41,18 +41,26 @@ def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
 
     """
     # Gamma-poisson observation model
-    alpha_lv, beta_lv = var(), var()
+    # N.B. The second parameter in a gamma node is its scale (i.e. `1 / beta`)
+    alpha_lv, scale_lv = var(), var()
     z_rng_lv = var()
     z_size_lv = var()
     z_type_idx_lv = var()
     z_et = etuple(
-        etuplize(at.random.gamma), z_rng_lv, z_size_lv, z_type_idx_lv, alpha_lv, beta_lv
+        etuplize(at.random.gamma),
+        z_rng_lv,
+        z_size_lv,
+        z_type_idx_lv,
+        alpha_lv,
+        scale_lv,
     )
     Y_et = etuple(etuplize(at.random.poisson), var(), var(), var(), z_et)
 
     # Posterior distribution for p
     new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
-    new_beta_et = etuple(etuplize(at.add), beta_lv, 1)
+    new_beta_et = etuple(
+        etuplize(at.add), etuple(etuplize(at.reciprocal), scale_lv), 1
+    )
     z_posterior_et = etuple(
         partial(srng.gen, at.random.gamma),
         new_alpha_et,
-- 
2.43.0


From 383935f7ae2826351857da0b094c8710bddbe375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 02/28] fix: associate each RNG with its own update in the
 sampling kernels

The shared inputs of an OpFromGraph are not in the order of its outputs, so
the generators' updates could be swapped and streams overlap.
---
 aemcmc/gibbs.py | 14 ++++++--------
 aemcmc/nuts.py  |  8 +++-----
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 57743eb..5325ff5 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -629,21 +629,19 @@ def nbinom_logistic_finder(fgraph, node, srng):
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
     # Build the `Op` corresponding to the sampling step
-    update_outputs = [h_posterior.owner.inputs[0].default_update]
-    update_outputs.extend(updates.values())
+    h_rng = h_posterior.owner.inputs[0]
+    updates = {h_rng: h_rng.default_update, **updates}
 
-    outputs = [h_posterior] + update_outputs
+    outputs = [h_posterior] + list(updates.values())
     inputs = remove_constants([h, p, a, b, y])
     gibbs = DispersionGibbsKernel(inputs, outputs)
 
     h_posterior = gibbs(*inputs)
     h_posterior.name = f"{h.name or 'h'}_posterior"
 
-    updates_offset = len(inputs)
-    updates = {
-        h_posterior.owner.inputs[updates_offset]: h_posterior.owner.outputs[1],
-        h_posterior.owner.inputs[updates_offset + 1]: h_posterior.owner.outputs[2],
-    }
+    # The order of the shared inputs of an `OpFromGraph` has no relation to the
+    # order of its outputs
+    updates = dict(zip(updates.keys(), h_posterior.owner.outputs[1:]))
 
     res.append((h, h_posterior, updates))
 
diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 90a7b82..3543a34 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -165,11 +165,9 @@ def construct_sampler(
     posterior = nuts_op(*inputs)
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
-    updates_input = posterior[0].owner.inputs[len(inputs) :]
-    updates_output = posterior[len(results) :]
-    updates = {
-        updates_input[i]: update_out for i, update_out in enumerate(updates_output)
-    }
+    # The order of the shared inputs of an `OpFromGraph` has no relation to the
+    # order of its outputs
+    updates = dict(zip(updates.keys(), posterior[len(results) :]))
 
     return results, updates, {nuts_op: parameters}
 
-- 
2.43.0


From 99c5a3d8cb3b43d5f8e6fd7369ad82d389a6bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 03/28] fix: allow NUTS steps to depend on the output of other
 sampling steps

The gradient of the NUTS log-density was traced through the kernels that
produce the realized values, which fails for every SamplingStep.
---
 aemcmc/nuts.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 3543a34..9af8fb6 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -150,7 +150,21 @@ def construct_sampler(
     to_sample_rvs: Dict[RandomVariable, TensorVariable],
     realized_rvs_to_values: Dict[RandomVariable, TensorVariable],
 ) -> Tuple[Dict[RandomVariable, TensorVariable], Dict, Dict[Apply, TensorVariable]]:
-    results, updates, parameters = step(srng, to_sample_rvs, realized_rvs_to_values)
+    # The realized values can be the outputs of other sampling steps. They are
+    # inputs to this step, i.e. the log-density's gradient doesn't need to
+    # consider how they were produced.
+    placeholders_to_values = {
+        vv.clone(): vv for vv in realized_rvs_to_values.values() if vv.owner is not None
+    }
+    values_to_placeholders = {vv: ph for ph, vv in placeholders_to_values.items()}
+    realized_rvs_to_placeholders = {
+        rv: values_to_placeholders.get(vv, vv)
+        for rv, vv in realized_rvs_to_values.items()
+    }
+
+    results, updates, parameters = step(
+        srng, to_sample_rvs, realized_rvs_to_placeholders
+    )
 
     # Build an `Op` that represents the NUTS sampling step
     update_outputs = list(updates.values())
@@ -162,7 +176,9 @@ def construct_sampler(
     ]
     nuts_op = NUTSKernel(inputs, outputs)
 
-    posterior = nuts_op(*inputs)
+    posterior = nuts_op(
+        *[placeholders_to_values.get(var_in, var_in) for var_in in inputs]
+    )
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
     # The order of the shared inputs of an `OpFromGraph` has no relation to the
-- 
2.43.0


From 42a4eb0cebc52d9dfadd2ecffee7cfd5ef77b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 04/28] fix: keep the order of the variables sampled by NUTS
 deterministic

A set of variables has an arbitrary iteration order, which determined the
layout of the raveled NUTS state and of the inverse mass matrix.
---
 aemcmc/basic.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 701fc3d..e73621b 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -54,7 +54,7 @@ def construct_sampler(
     posterior_updates: Dict[Variable, Variable] = {}
 
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
-    rvs_without_samplers = set()
+    rvs_without_samplers = []
 
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
@@ -63,7 +63,7 @@ def construct_sampler(
         rv_steps = discovered_samplers.get(rv)
 
         if not rv_steps:
-            rvs_without_samplers.add(rv)
+            rvs_without_samplers.append(rv)
             continue
 
         # TODO FIXME: Just choosing one for now, but we should consider them all.
@@ -103,9 +103,7 @@ def construct_sampler(
 
     # Use the NUTS sampler for the remaining variables
     if rvs_without_samplers:
-        to_sample_rvs = {
-            rv: posterior_sample_steps[rv] for rv in list(rvs_without_samplers)
-        }
+        to_sample_rvs = {rv: posterior_sample_steps[rv] for rv in rvs_without_samplers}
         realized_values = {
             rv: vv
             for rv, vv in posterior_sample_steps.items()
-- 
2.43.0


From 50c143171a262efff8665a63da5f1e967cd96fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 05/28] fix: use scales for the exponential draws in the
 horseshoe kernel

RandomStream.exponential takes a scale, but the kernel passed it the rates of
the conditional distributions.
---
 aemcmc/gibbs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 5325ff5..88098f4 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -241,11 +241,14 @@ def horseshoe_posterior(
     lmbda2_inv = at.reciprocal(lambda2)
     tau2_inv = at.reciprocal(tau2)
 
-    upsilon_inv = srng.exponential(1 + lmbda2_inv)
-    zeta_inv = srng.exponential(1 + tau2_inv)
+    # N.B. `srng.exponential` is parameterized by its scale
+    upsilon_inv = srng.exponential(at.reciprocal(1 + lmbda2_inv))
+    zeta_inv = srng.exponential(at.reciprocal(1 + tau2_inv))
 
     beta2 = beta**2
-    lambda2_inv_new = srng.exponential(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    lambda2_inv_new = srng.exponential(
+        at.reciprocal(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    )
     tau2_inv_new = srng.gamma(
         0.5 * (beta.shape[0] + 1),
         zeta_inv + 0.5 * (beta2 * lambda2_inv_new).sum() / sigma2,
-- 
2.43.0


From eac454cf9f983f2f54c8f4dee0d4b78b606dd833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 06/28] fix: square the inverse std. devs. in the normal
 regression posterior

lmbdatau_inv holds inverse standard deviations, but they were used as the
prior precisions.
---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 88098f4..be1abe9 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -45,7 +45,7 @@ def normal_regression_overdetermined_posterior(
     indices = at.arange(Q.shape[1])
     Q = at.subtensor.set_subtensor(
         Q[indices, indices],
-        at.diag(Q) + lmbdatau_inv,
+        at.diag(Q) + lmbdatau_inv**2,
     )
     return multivariate_normal_rue2005(srng, X.T @ (omega * z), Q)
 
@@ -64,7 +64,7 @@ def normal_regression_underdetermined_posterior(
     See `update_beta` for a description of the parameters and return value.
 
     """
-    return multivariate_normal_cong2017(srng, lmbdatau_inv, omega, X, z)
+    return multivariate_normal_cong2017(srng, lmbdatau_inv**2, omega, X, z)
 
 
 def normal_regression_posterior(
-- 
2.43.0


From be9316d25fe9d345931098d1ab5e71b14aa67291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 07/28] fix: use the sign of the matched model in the Bernoulli
 regression kernel

bern_sigmoid_dot_match recognizes sigmoid(-X @ beta), but the posterior was
the one for sigmoid(X @ beta).
---
 aemcmc/gibbs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index be1abe9..de18be7 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -753,7 +753,9 @@ def bern_logistic_finder(fgraph, node, srng):
         return None
 
     beta_std = beta_rv.owner.inputs[4]
-    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
+    # The matched model uses `p = sigmoid(-X @ beta)`, while the posterior is for
+    # `p = sigmoid(X @ beta)`
+    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, -X, y)
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-- 
2.43.0


From 0e4b7ce0e690ded596b6f56a4e7cb2c9aaa0b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 08/28] fix: only use the regression kernels for the models
 they are valid for

The finders accepted priors of any family and mean, failed for scalar prior
std. devs. and constant dispersions, and accepted vectors containing a -1 as
the sign of the linear predictor.
---
 aemcmc/gibbs.py | 42 +++++++++++++++++++++++++++++++++++++-----
 aemcmc/utils.py | 11 ++++++++++-
 2 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index de18be7..b689153 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -21,7 +21,7 @@ from aemcmc.dists import (
 )
 from aemcmc.rewriting import sampler_finder, sampler_finder_db
 from aemcmc.types import SamplingStep
-from aemcmc.utils import remove_constants
+from aemcmc.utils import is_constant_value, remove_constants
 
 gibbs_db = LocalGroupDB(apply_all_rewrites=True)
 gibbs_db.name = "gibbs_db"
@@ -329,6 +329,9 @@ gamma_pattern = etuple(etuplize(at.random.gamma), var(), var(), var(), a_lv, b_l
 
 
 def gamma_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariable]:
+    if graph.owner is None:
+        raise ValueError("Not a gamma prior.")
+
     graph_et = etuplize(graph)
     s = unify(graph_et, gamma_pattern)
     if s is False:
@@ -340,6 +343,30 @@ def gamma_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariable]:
     return a, b
 
 
+def normal_regression_match(
+    X: TensorVariable, beta_rv: TensorVariable, y: TensorVariable
+) -> TensorVariable:
+    """Get the std. dev. of each element in a zero-mean normal regression parameter.
+
+    A `ValueError` is raised when `X @ beta_rv` isn't the product of a matrix and
+    a vector of independent zero-mean normal variables with one element of `y`
+    for each row of `X`.
+
+    """
+    if beta_rv.owner is None or not isinstance(beta_rv.owner.op, NormalRV):
+        raise ValueError("The regression parameter is not normally distributed.")
+
+    if X.type.ndim != 2 or beta_rv.type.ndim != 1 or y.type.ndim != 1:
+        raise ValueError("Not a regression with a matrix of covariates.")
+
+    beta_mean, beta_std = beta_rv.owner.inputs[3:]
+
+    if not is_constant_value(beta_mean, 0):
+        raise ValueError("The mean of the regression parameter is not zero.")
+
+    return at.broadcast_to(beta_std, (X.shape[1],))
+
+
 h_lv = var()
 nbinom_sigmoid_dot_pattern = etuple(
     etuplize(at.random.nbinom), var(), var(), var(), h_lv, sigmoid_dot_pattern
@@ -354,7 +381,7 @@ def nbinom_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a negative binomial regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_constant_value(eval_if_etuple(s[neg_one_lv]), -1):
         raise ValueError(
             "Not a negative binomial regression. The argument to "
             + "the sigmoid must be minus the dot product."
@@ -603,10 +630,10 @@ def nbinom_logistic_finder(fgraph, node, srng):
 
     try:
         X, h, beta_rv = nbinom_sigmoid_dot_match(node.outputs[1])
+        beta_std = normal_regression_match(X, beta_rv, y)
     except ValueError:  # pragma: no cover
         return None
 
-    beta_std = beta_rv.owner.inputs[4]
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
     # Build the `Op` corresponding to the sampling step
@@ -621,6 +648,11 @@ def nbinom_logistic_finder(fgraph, node, srng):
         Tuple[TensorVariable, TensorVariable, Optional[Mapping[Variable, Variable]]]
     ] = [(beta_rv, beta_posterior, None)]
 
+    # The dispersion step is for a single parameter that's shared by every
+    # observation
+    if h.type.ndim > 0:
+        return res
+
     # TODO: Should this be in a separate rewriter?
     try:
         a, b = gamma_match(h)
@@ -668,7 +700,7 @@ def bern_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a Bernoulli regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_constant_value(eval_if_etuple(s[neg_one_lv]), -1):
         raise ValueError(
             "Not a Bernoulli regression. The argument to the sigmoid "
             + "must be minus the dot product."
@@ -749,10 +781,10 @@ def bern_logistic_finder(fgraph, node, srng):
 
     try:
         X, beta_rv = bern_sigmoid_dot_match(node.outputs[1])
+        beta_std = normal_regression_match(X, beta_rv, y)
     except ValueError:  # pragma: no cover
         return None
 
-    beta_std = beta_rv.owner.inputs[4]
     # The matched model uses `p = sigmoid(-X @ beta)`, while the posterior is for
     # `p = sigmoid(X @ beta)`
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, -X, y)
diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index de295ec..f68e15c 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -3,7 +3,8 @@ from typing import TYPE_CHECKING, Dict, Optional, Tuple
 
 from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Constant, Variable, ancestors
-from aesara.tensor import as_tensor_variable
+from aesara.tensor import as_tensor_variable, get_scalar_constant_value
+from aesara.tensor.exceptions import NotScalarConstantError
 from aesara.tensor.random.type import RandomType
 from aesara.tensor.var import TensorVariable
 
@@ -80,6 +81,14 @@ def remove_constants(inputs):
     return res
 
 
+def is_constant_value(var: Variable, value: float) -> bool:
+    """Determine whether every element of `var` is known to be equal to `value`."""
+    try:
+        return bool(get_scalar_constant_value(var) == value)
+    except NotScalarConstantError:
+        return False
+
+
 def get_rv_updates(
     srng: "RandomStream", *rvs: TensorVariable
 ) -> Dict[SharedVariable, "Variable"]:
-- 
2.43.0


From f0dd4943f1efb565a7f4a8ef394921d327192a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 09/28] fix: only use the horseshoe kernel for standard
 horseshoe priors

horseshoe_match ignored the mean of the normal and the parameters of the
half-Cauchy distributions, and accepted shared or broadcasted local shrinkage
parameters. The kernel also used the first dimension of the variable instead
of its size.
---
 aemcmc/gibbs.py | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index b689153..7e8f997 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -150,23 +150,31 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
     if s is False:
         raise ValueError("Not a horseshoe prior.")
 
-    halfcauchy_1 = eval_if_etuple(s[halfcauchy_1_lv])
-    if halfcauchy_1.owner is None or not isinstance(
-        halfcauchy_1.owner.op, type(at.random.halfcauchy)
-    ):
-        raise ValueError(
-            "Not a horseshoe prior. One of the shrinkage parameters "
-            + "in your model is not half-Cauchy distributed."
-        )
+    if not is_constant_value(eval_if_etuple(s[zero_lv]), 0):
+        raise ValueError("Not a horseshoe prior. The mean is not zero.")
 
+    halfcauchy_1 = eval_if_etuple(s[halfcauchy_1_lv])
     halfcauchy_2 = eval_if_etuple(s[halfcauchy_2_lv])
 
-    if halfcauchy_2.owner is None or not isinstance(
-        halfcauchy_2.owner.op, type(at.random.halfcauchy)
-    ):
+    for halfcauchy in (halfcauchy_1, halfcauchy_2):
+        if halfcauchy.owner is None or not isinstance(
+            halfcauchy.owner.op, type(at.random.halfcauchy)
+        ):
+            raise ValueError(
+                "Not a horseshoe prior. One of the shrinkage parameters "
+                + "in your model is not half-Cauchy distributed."
+            )
+
+        loc, scale = halfcauchy.owner.inputs[3:]
+        if not is_constant_value(loc, 0) or not is_constant_value(scale, 1):
+            raise ValueError(
+                "Not a horseshoe prior. One of the shrinkage parameters "
+                + "in your model is not standard half-Cauchy distributed."
+            )
+
+    if halfcauchy_1 is halfcauchy_2:
         raise ValueError(
-            "Not a horseshoe prior. One of the shrinkage parameters "
-            + "in your model is not half-Cauchy distributed."
+            "Not a horseshoe prior. The shrinkage parameters are the same variable."
         )
 
     if halfcauchy_1.type.ndim == 0 or all(s == 1 for s in halfcauchy_1.type.shape):
@@ -181,6 +189,16 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model must be one-dimensional."
         )
 
+    # Every element of `graph` needs its own local shrinkage parameter
+    if lmbda_rv.type.ndim != graph.type.ndim or any(
+        lmbda_s == 1 and s != 1
+        for lmbda_s, s in zip(lmbda_rv.type.shape, graph.type.shape)
+    ):
+        raise ValueError(
+            "Not a horseshoe prior. The local shrinkage parameter in your model "
+            + "must have the same shape as the variable with the horseshoe prior."
+        )
+
     return (lmbda_rv, tau_rv)
 
 
@@ -250,7 +268,7 @@ def horseshoe_posterior(
         at.reciprocal(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
     )
     tau2_inv_new = srng.gamma(
-        0.5 * (beta.shape[0] + 1),
+        0.5 * (beta.size + 1),
         zeta_inv + 0.5 * (beta2 * lambda2_inv_new).sum() / sigma2,
     )
 
-- 
2.43.0


From 1b074938e87c65004c217ba8e7f0fc59eedc03aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 10/28] fix: don't use kernels for variables with more than one
 child

The finders ignored the other children of the variables they create steps
for, e.g. only one of the observed variables that share a parameter
contributed to its posterior.
---
 aemcmc/conjugates.py | 14 +++++++++++++-
 aemcmc/gibbs.py      | 15 +++++++++++++--
 aemcmc/rewriting.py  | 29 +++++++++++++++++++++++++++++
 3 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 4df61c9..b16d80a 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -10,7 +10,7 @@ from etuples import etuple, etuplize
 from kanren import eq, lall, run
 from unification import var
 
-from aemcmc.rewriting import sampler_finder, sampler_finder_db
+from aemcmc.rewriting import is_only_child, sampler_finder, sampler_finder_db
 
 if TYPE_CHECKING:
     from aesara.tensor.random.utils import RandomStream
@@ -90,6 +90,10 @@ def local_gamma_poisson_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     gamma_rv = rv_et[-1].evaled_obj
+
+    if not is_only_child(fgraph, gamma_rv, node):
+        return None
+
     gamma_posterior = eval_if_etuple(res)
 
     return [(gamma_rv, gamma_posterior, None)]
@@ -164,6 +168,10 @@ def local_beta_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if not is_only_child(fgraph, beta_rv, node):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
@@ -241,6 +249,10 @@ def local_beta_negative_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if not is_only_child(fgraph, beta_rv, node):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 7e8f997..2033eda 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -19,7 +19,7 @@ from aemcmc.dists import (
     multivariate_normal_rue2005,
     polyagamma,
 )
-from aemcmc.rewriting import sampler_finder, sampler_finder_db
+from aemcmc.rewriting import is_only_child, sampler_finder, sampler_finder_db
 from aemcmc.types import SamplingStep
 from aemcmc.utils import is_constant_value, remove_constants
 
@@ -311,6 +311,11 @@ def normal_horseshoe_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not is_only_child(fgraph, lambda_rv, node) or not is_only_child(
+        fgraph, tau_rv, node
+    ):
+        return None
+
     tau2 = tau_rv**2
     lambda2 = lambda_rv**2
     lambda_posterior, tau_posterior = horseshoe_posterior(
@@ -652,6 +657,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not is_only_child(fgraph, beta_rv, node):
+        return None
+
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
     # Build the `Op` corresponding to the sampling step
@@ -668,7 +676,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
 
     # The dispersion step is for a single parameter that's shared by every
     # observation
-    if h.type.ndim > 0:
+    if h.type.ndim > 0 or not is_only_child(fgraph, h, node):
         return res
 
     # TODO: Should this be in a separate rewriter?
@@ -803,6 +811,9 @@ def bern_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not is_only_child(fgraph, beta_rv, node):
+        return None
+
     # The matched model uses `p = sigmoid(-X @ beta)`, while the posterior is for
     # `p = sigmoid(X @ beta)`
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, -X, y)
diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 73ab76e..d22dec8 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -15,6 +15,7 @@ from aesara.tensor.elemwise import DimShuffle, Elemwise
 from aesara.tensor.random.op import RandomVariable
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.rewriting.shape import ShapeFeature
+from aesara.tensor.shape import Shape, Shape_i
 from aesara.tensor.var import TensorVariable
 from cons.core import _car
 from unification.core import _unify
@@ -124,6 +125,34 @@ class SamplerTracker(Feature):
         fgraph.sampler_mappings = self
 
 
+def is_only_child(fgraph: FunctionGraph, rv: TensorVariable, node: Apply) -> bool:
+    """Determine whether `node` is the only child of the random variable `rv`.
+
+    The likelihood of a random variable comprises all its children, so a sampler
+    step that only considers one of them is not valid when there are others.
+
+    """
+    while True:
+        clients = [
+            client
+            for client, _ in fgraph.clients.get(rv, ())
+            if client != "output" and not isinstance(client.op, (Shape, Shape_i))
+        ]
+
+        if len(clients) != 1:
+            return False
+
+        (client,) = clients
+
+        if client is node:
+            return True
+
+        if isinstance(client.op, RandomVariable) or len(client.outputs) != 1:
+            return False
+
+        (rv,) = client.outputs
+
+
 def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
     """Construct a `NodeRewriter` that identifies sample steps.
 
-- 
2.43.0


From 4c0d3484404852f9f09b649fd9da95635f5d75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 11/28] fix: only use the conjugate posteriors for one
 observation per variable

The closed-form posteriors are elementwise and don't combine the observations
that are broadcasted against a single prior variable.
---
 aemcmc/conjugates.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index b16d80a..4fa697f 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -6,6 +6,7 @@ from aesara.graph.rewriting.basic import in2out
 from aesara.graph.rewriting.db import LocalGroupDB
 from aesara.graph.rewriting.unify import eval_if_etuple
 from aesara.tensor.random.basic import BinomialRV, NegBinomialRV, PoissonRV
+from aesara.tensor.var import TensorVariable
 from etuples import etuple, etuplize
 from kanren import eq, lall, run
 from unification import var
@@ -16,6 +17,14 @@ if TYPE_CHECKING:
     from aesara.tensor.random.utils import RandomStream
 
 
+def has_same_shape(prior_rv: TensorVariable, observed_rv: TensorVariable) -> bool:
+    """Determine whether there's exactly one observation for each prior variable."""
+    return prior_rv.type.ndim == observed_rv.type.ndim and not any(
+        prior_s == 1 and observed_s != 1
+        for prior_s, observed_s in zip(prior_rv.type.shape, observed_rv.type.shape)
+    )
+
+
 def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_expr):
     r"""Relation for the conjugate posterior of a gamma prior with a Poisson observation model.
 
@@ -91,7 +100,7 @@ def local_gamma_poisson_posterior(fgraph, node, srng):
 
     gamma_rv = rv_et[-1].evaled_obj
 
-    if not is_only_child(fgraph, gamma_rv, node):
+    if not is_only_child(fgraph, gamma_rv, node) or not has_same_shape(gamma_rv, rv_var):
         return None
 
     gamma_posterior = eval_if_etuple(res)
@@ -169,7 +178,7 @@ def local_beta_binomial_posterior(fgraph, node, srng):
 
     beta_rv = rv_et[-1].evaled_obj
 
-    if not is_only_child(fgraph, beta_rv, node):
+    if not is_only_child(fgraph, beta_rv, node) or not has_same_shape(beta_rv, rv_var):
         return None
 
     beta_posterior = eval_if_etuple(res)
@@ -250,7 +259,7 @@ def local_beta_negative_binomial_posterior(fgraph, node, srng):
 
     beta_rv = rv_et[-1].evaled_obj
 
-    if not is_only_child(fgraph, beta_rv, node):
+    if not is_only_child(fgraph, beta_rv, node) or not has_same_shape(beta_rv, rv_var):
         return None
 
     beta_posterior = eval_if_etuple(res)
-- 
2.43.0


From b39dea6e6d2eedebdb53dd144a9a351e67b430b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 12/28] fix: support shared variables in the inputs of the
 sampling kernels

A shared variable can't be an explicit input of an OpFromGraph, so models with
shared data made the finders and the subsumption rewrite fail.
---
 aemcmc/gibbs.py     | 21 +++++++++++++++++----
 aemcmc/rewriting.py |  5 +++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 2033eda..b07c518 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -2,6 +2,7 @@ from typing import List, Mapping, Optional, Tuple
 
 import aesara
 import aesara.tensor as at
+from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Variable
 from aesara.graph.rewriting.basic import in2out
 from aesara.graph.rewriting.db import LocalGroupDB
@@ -23,6 +24,18 @@ from aemcmc.rewriting import is_only_child, sampler_finder, sampler_finder_db
 from aemcmc.types import SamplingStep
 from aemcmc.utils import is_constant_value, remove_constants
 
+
+def get_kernel_inputs(variables: List[TensorVariable]) -> List[TensorVariable]:
+    """Get the variables that are explicit inputs of a sampling step.
+
+    Shared variables are implicit inputs in an `OpFromGraph`.
+
+    """
+    return [
+        v for v in remove_constants(variables) if not isinstance(v, SharedVariable)
+    ]
+
+
 gibbs_db = LocalGroupDB(apply_all_rewrites=True)
 gibbs_db.name = "gibbs_db"
 
@@ -324,7 +337,7 @@ def normal_horseshoe_finder(fgraph, node, srng):
 
     # Build an `Op` for the sampling kernel
     outputs = [lambda_posterior, tau_posterior]
-    inputs = remove_constants([rv_var, lambda2, tau2])
+    inputs = get_kernel_inputs([rv_var, lambda2, tau2])
     gibbs = HorseshoeGibbsKernel(inputs, outputs)
 
     lambda_posterior, tau_posterior = gibbs(*inputs)
@@ -664,7 +677,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-    inputs = remove_constants([beta_rv, beta_std, X, h, y])
+    inputs = get_kernel_inputs([beta_rv, beta_std, X, h, y])
     gibbs = NBRegressionGibbsKernel(inputs, outputs)
 
     beta_posterior = gibbs(*inputs)
@@ -694,7 +707,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     updates = {h_rng: h_rng.default_update, **updates}
 
     outputs = [h_posterior] + list(updates.values())
-    inputs = remove_constants([h, p, a, b, y])
+    inputs = get_kernel_inputs([h, p, a, b, y])
     gibbs = DispersionGibbsKernel(inputs, outputs)
 
     h_posterior = gibbs(*inputs)
@@ -820,7 +833,7 @@ def bern_logistic_finder(fgraph, node, srng):
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-    inputs = remove_constants([beta_rv, beta_std, X, y])
+    inputs = get_kernel_inputs([beta_rv, beta_std, X, y])
     gibbs = BernoulliRegressionGibbsKernel(inputs, outputs)
 
     beta_posterior: TensorVariable = gibbs(*inputs)  # type: ignore
diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index d22dec8..5598c39 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -5,6 +5,7 @@ from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tupl
 from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
+from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Apply, Variable, clone_replace, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
@@ -385,6 +386,10 @@ def local_elemwise_dimshuffle_subsume(fgraph, node):
     if not found_subsumable_ds:
         return None  # pragma: no cover
 
+    # Shared variables can't be explicit inputs of an `OpFromGraph`
+    if any(isinstance(i, SharedVariable) for i in new_inputs):
+        return None
+
     assert len(subsumed_inputs) == len(node.inputs)
     new_outputs = node.op.make_node(*subsumed_inputs).outputs
 
-- 
2.43.0


From c8fb9a2e5efba639a88802521de29d175c74f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 13/28] fix: use the values of the parameters in the NUTS
 transforms

The transforms of variables whose support depends on another random variable
were built with that random variable instead of its value, i.e. each step used
a draw from its prior.
---
 aemcmc/nuts.py | 60 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 9af8fb6..599350d 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -1,4 +1,4 @@
-from typing import Callable, Dict, Tuple
+from typing import Callable, Dict, List, Tuple
 
 import aesara
 import aesara.tensor as at
@@ -12,7 +12,13 @@ from aeppl.transforms import (
 )
 from aesara import config
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, graph_inputs
+from aesara.graph.basic import (
+    Apply,
+    Variable,
+    clone_replace,
+    graph_inputs,
+    io_toposort,
+)
 from aesara.graph.type import Constant
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
@@ -85,8 +91,9 @@ def step(
     # when the support of each random variable's distribution is unconstrained. Get
     # the default transform that corresponds to each random variable.
     transforms = {rv: get_transform(rv) for rv in to_sample_rvs}
+    rvs_to_values = {**realized_rvs_to_values, **to_sample_rvs}
     transformed_values = [
-        transform_forward(rv, vv, transforms[rv])
+        transform_forward(rv, vv, transforms[rv], rvs_to_values)
         for rv, vv in zip(to_sample_rvs, initial_values)
     ]
 
@@ -133,10 +140,22 @@ def step(
     # values back to the original space.
     (new_q, *_), updates = nuts_kernel(*initial_state, step_size, inverse_mass_matrix)
     transformed_params = rp_map.unravel_params(new_q)
-    results = {
-        rv: transform_backward(rv, transformed_params[pv], transforms[rv])
-        for rv, pv in zip(to_sample_rvs, placeholder_values)
-    }
+
+    # A transform can depend on the updated values of the other variables, so we
+    # start with the variables that don't depend on any other.
+    rvs_to_placeholders = dict(zip(to_sample_rvs, placeholder_values))
+    rvs_to_values = dict(realized_rvs_to_values)
+    for node in io_toposort([], list(to_sample_rvs)):
+        for rv in node.outputs:
+            if rv in rvs_to_placeholders:
+                rvs_to_values[rv] = transform_backward(
+                    rv,
+                    transformed_params[rvs_to_placeholders[rv]],
+                    transforms[rv],
+                    rvs_to_values,
+                )
+
+    results = {rv: rvs_to_values[rv] for rv in to_sample_rvs}
 
     return (
         results,
@@ -197,10 +216,24 @@ def get_transform(rv: TensorVariable):
         return None
 
 
-def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def realize_inputs(
+    rv: TensorVariable, rvs_to_values: Dict[TensorVariable, TensorVariable]
+) -> List[Variable]:
+    """Replace the random variables in the inputs of `rv` with their values."""
+    return clone_replace(
+        rv.owner.inputs, replace=list(rvs_to_values.items()), rebuild_strict=False
+    )
+
+
+def transform_forward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    rvs_to_values: Dict[TensorVariable, TensorVariable],
+):
     """Push variables to the transformed space."""
     if transform:
-        res = transform.forward(vv, *rv.owner.inputs)
+        res = transform.forward(vv, *realize_inputs(rv, rvs_to_values))
         if vv.name:
             res.name = f"{vv.name}_trans"
         return res
@@ -208,10 +241,15 @@ def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTrans
         return vv
 
 
-def transform_backward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def transform_backward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    rvs_to_values: Dict[TensorVariable, TensorVariable],
+):
     """Pull variables back from the transformed space."""
     if transform:
-        res = transform.backward(vv, *rv.owner.inputs)
+        res = transform.backward(vv, *realize_inputs(rv, rvs_to_values))
         return res
     else:
         return vv
-- 
2.43.0


From 0eb176425cd997b22fbb7537ebc46d9ab27853c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 14/28] fix: draw one standardized variable per element in
 location_scale_transform

The non-centered representation used a single scalar draw for every element of
a vector-valued location or scale when the size was implicit.
---
 aemcmc/transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aemcmc/transforms.py b/aemcmc/transforms.py
index 106d586..d72c48b 100644
--- a/aemcmc/transforms.py
+++ b/aemcmc/transforms.py
@@ -50,6 +50,8 @@ def location_scale_transform(in_expr, out_expr):
     centered_et = etuple(distribution_lv, rng_lv, size_lv, type_idx_lv, mu_lv, sd_lv)
 
     # Non-centered representation
+    # N.B. The standardized variable must have as many independent elements as
+    # the centered one, even when its size isn't explicit
     noncentered_et = etuple(
         etuplize(at.add),
         mu_lv,
@@ -58,8 +60,8 @@ def location_scale_transform(in_expr, out_expr):
             sd_lv,
             etuple(
                 distribution_lv,
-                0,
-                1,
+                etuple(at.zeros_like, mu_lv),
+                etuple(at.ones_like, sd_lv),
                 rng=rng_lv,
                 size=size_lv,
                 dtype=type_idx_lv,
-- 
2.43.0


From 7ec83296d098d0ad37c11fd8ba2c172221248459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 15/28] fix: don't modify the model when composing the sampling
 steps

The current values of the variables were put in place in graphs that the
discovered steps share with the model, so NUTS steps used old values
of the variables that other steps had already updated.
---
 aemcmc/basic.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index e73621b..920d0c3 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,6 +1,6 @@
-from typing import Dict, Tuple
+from typing import Dict, List, Tuple
 
-from aesara.graph.basic import Apply, Variable
+from aesara.graph.basic import Apply, Variable, clone_get_equiv
 from aesara.graph.fg import FunctionGraph
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.var import TensorVariable
@@ -56,6 +56,9 @@ def construct_sampler(
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
     rvs_without_samplers = []
 
+    # The nodes of the steps that use the updated values of the other variables
+    realized_nodes: List[Apply] = []
+
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
             continue
@@ -75,6 +78,18 @@ def construct_sampler(
         else:
             update_keys, update_values = tuple(), tuple()
 
+        if step.owner not in realized_nodes:
+            # Update the other sampled random variables in this step's graph.
+            # The inputs are cloned, because the model's graph and the graphs of
+            # the other steps can share nodes with them.
+            memo = posterior_sample_steps.copy()
+            memo.update({out: out for node in realized_nodes for out in node.outputs})
+            clone_get_equiv(
+                [], [step], copy_inputs=False, copy_orphans=False, memo=memo
+            )
+            step.owner.inputs = memo[step].owner.inputs
+            realized_nodes.append(step.owner)
+
         sfgraph = FunctionGraph(
             outputs=(step,) + tuple(update_keys) + tuple(update_values),
             clone=False,
@@ -82,16 +97,10 @@ def construct_sampler(
             copy_orphans=False,
         )
 
-        # Update the other sampled random variables in this step's graph
-        sfgraph.replace_all(list(posterior_sample_steps.items()), import_missing=True)
-
         expand_subsumptions.rewrite(sfgraph)
 
         step = sfgraph.outputs[0]
 
-        # Update the other sampled random variables in this step's graph
-        # (step,) = clone_replace([step], replace=posterior_sample_steps)
-
         posterior_sample_steps[rv] = step
 
         if updates:
-- 
2.43.0


From 7dc6ec092ac8b40125556311bd5fe3add5a407b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 16/28] fix: don't copy random variables when expanding
 subsumed dimshuffles

The expanded graphs depended on copies of the random variables that weren't
known to the model, so they weren't replaced by their values in the
log-densities of the NUTS steps.
---
 aemcmc/rewriting.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 5598c39..92f0ff2 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -6,7 +6,7 @@ from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, Variable, clone_replace, io_toposort
+from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
 from aesara.graph.op import Op
@@ -419,11 +419,18 @@ def inline_SubsumingElemwise(fgraph, node):
     if not op.is_inline:
         return False  # pragma: no cover
 
-    res = clone_replace(
-        op.inner_outputs, {u: v for u, v in zip(op.inner_inputs, node.inputs)}
+    # N.B. The inputs themselves must not be cloned; otherwise, the result would
+    # depend on copies of the random variables in the graph
+    memo = clone_get_equiv(
+        op.inner_inputs,
+        op.inner_outputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo=dict(zip(op.inner_inputs, node.inputs)),
+        strict=False,
     )
 
-    return res
+    return [memo[out] for out in op.inner_outputs]
 
 
 expand_subsumptions = in2out(inline_SubsumingElemwise)
-- 
2.43.0


From fe56d1d866ff6caf40686495d2307ded0eb3481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 17/28] fix: don't drop the constants in sums and products when
 subsuming dimshuffles

---
 aemcmc/rewriting.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 92f0ff2..1c501b1 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -6,7 +6,7 @@ from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
+from aesara.graph.basic import Apply, Constant, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
 from aesara.graph.op import Op
@@ -390,6 +390,11 @@ def local_elemwise_dimshuffle_subsume(fgraph, node):
     if any(isinstance(i, SharedVariable) for i in new_inputs):
         return None
 
+    # N.B. `Constant` inputs are dropped, and other rewrites assume that things
+    # like additions and multiplications with one remaining input are no-ops
+    if node.op.scalar_op.nin < 0 and any(isinstance(i, Constant) for i in new_inputs):
+        return None
+
     assert len(subsumed_inputs) == len(node.inputs)
     new_outputs = node.op.make_node(*subsumed_inputs).outputs
 
-- 
2.43.0


From 0b0e47f068c9808ef940e5f3330ccc1cf3bc1ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 18/28] fix: support symbolic transition matrices in ffbs_step

---
 aemcmc/ffbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 6c33bf9..9d5a2b5 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -64,6 +64,7 @@ def ffbs_step(
     """
 
     gamma_0 = at.as_tensor(gamma_0)
+    Gammas = at.as_tensor(Gammas)
     log_lik = at.as_tensor(log_lik)
 
     # Number of observations
@@ -78,7 +79,7 @@ def ffbs_step(
 
     # Make sure we have a transition matrix for each element in a state
     # sequence
-    Gammas = at.broadcast_to(Gammas, (N,) + Gammas.shape[-2:])
+    Gammas = at.broadcast_to(Gammas, (N, Gammas.shape[-2], Gammas.shape[-1]))
 
     def forward_step(log_lik_T_n, Gamma_n, alpha_nm1):
         log_lik_n = log_lik_T_n.T
-- 
2.43.0


From 4c090c178c48b8e08aa1d0cb107420813646f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 19/28] fix: keep the graph of the model when building the NUTS
 log-density

`joint_logprob` can replace nodes of the graph it is given, in which case the
backward transforms were computed with prior draws of the other variables.
---
 aemcmc/nuts.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 599350d..9cf29d6 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -15,6 +15,7 @@ from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import (
     Apply,
     Variable,
+    clone_get_equiv,
     clone_replace,
     graph_inputs,
     io_toposort,
@@ -100,11 +101,17 @@ def step(
     # Build the graph for the joint log-density of the model, setting the value
     # of the realized variables. The placeholder nodes are defined in the
     # transformed space and will be replaced by their actual value when building
-    # the NUTS kernel.
+    # the NUTS kernel. `joint_logprob` can modify the graph it is given, and we still
+    # need the inputs of the random variables to transform the updated values.
+    rvs_memo = clone_get_equiv(
+        [], list(rvs_to_values), copy_inputs=False, copy_orphans=False
+    )
     logprob, placeholder_values = joint_logprob(
-        *to_sample_rvs.keys(),
-        realized=realized_rvs_to_values,
-        extra_rewrites=TransformValuesRewrite(transforms),
+        *[rvs_memo[rv] for rv in to_sample_rvs],
+        realized={rvs_memo[rv]: vv for rv, vv in realized_rvs_to_values.items()},
+        extra_rewrites=TransformValuesRewrite(
+            {rvs_memo[rv]: transform for rv, transform in transforms.items()}
+        ),
     )
 
     # Algorithms in `AeHMC` work with flat arrays so we need to ravel parameter
-- 
2.43.0


From b1a240fcebf74c01fb0d767a1a0e3e931f548f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 20/28] fix: rebuild SubsumingElemwise for inputs that
 broadcast differently

---
 aemcmc/rewriting.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 1c501b1..c9d1660 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -234,6 +234,28 @@ class SubsumingElemwise(OpFromGraph, Elemwise):
         if len(used_inputs) == num_expected_inps:
             used_inputs = used_inputs + self.shared_inputs
 
+        if any(
+            not inner.type.is_super(outer.type)
+            or inner.type.broadcastable != outer.type.broadcastable
+            for inner, outer in zip(self.inner_inputs, used_inputs)
+        ):
+            # Rewrites for `Elemwise`s (e.g. the ones that sink `at.fill`s) can
+            # apply this `Op` to inputs that broadcast differently, in which
+            # case the inner-graph's types no longer apply
+            new_inputs = [outer.type() for outer in used_inputs]
+            memo = clone_get_equiv(
+                self.inner_inputs,
+                self.inner_outputs,
+                copy_inputs=False,
+                copy_orphans=False,
+                memo=dict(zip(self.inner_inputs, new_inputs)),
+                strict=False,
+            )
+            new_op = type(self)(
+                new_inputs, [memo[out] for out in self.inner_outputs], inline=True
+            )
+            return new_op.make_node(*used_inputs)
+
         node = super().make_node(*used_inputs)
 
         # Remove shared variable inputs.  We aren't going to compute anything
-- 
2.43.0


From 9b3dc8fedbd22c81ccb96132f36b3d2215131573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 21/28] fix: do not subsume dimshuffles when a constant has
 other dimensions

---
 aemcmc/rewriting.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index c9d1660..fdd804c 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -417,6 +417,14 @@ def local_elemwise_dimshuffle_subsume(fgraph, node):
     if node.op.scalar_op.nin < 0 and any(isinstance(i, Constant) for i in new_inputs):
         return None
 
+    # The shape of the output must not depend on the `Constant`s that are dropped;
+    # otherwise, rewrites that move indices to the inputs of `Elemwise`s would
+    # apply them to the wrong dimensions
+    if any(
+        isinstance(i, Constant) and not all(i.type.broadcastable) for i in new_inputs
+    ):
+        return None
+
     assert len(subsumed_inputs) == len(node.inputs)
     new_outputs = node.op.make_node(*subsumed_inputs).outputs
 
-- 
2.43.0


From 3413c7d2fa83fe51299cc2de68156371f12cee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 22/28] fix: keep the dimensions of inverse gammas in
 invgamma_exponential

---
 aemcmc/transforms.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/aemcmc/transforms.py b/aemcmc/transforms.py
index d72c48b..42116f3 100644
--- a/aemcmc/transforms.py
+++ b/aemcmc/transforms.py
@@ -2,7 +2,7 @@ import aesara.tensor as at
 from etuples import etuple, etuplize
 from kanren import eq, lall
 from kanren.facts import Relation, fact
-from unification import var
+from unification import reify, var
 
 location_scale_family = Relation("location-scale-family")
 fact(location_scale_family, at.random.cauchy)
@@ -104,8 +104,10 @@ def invgamma_exponential(invgamma_expr, invexponential_expr):
     c_lv = var()
     rng_lv, size_lv, dtype_lv = var(), var(), var()
 
+    alpha_lv = var()
+
     invgamma_et = etuple(
-        etuplize(at.random.invgamma), rng_lv, size_lv, dtype_lv, at.as_tensor(1.0), c_lv
+        etuplize(at.random.invgamma), rng_lv, size_lv, dtype_lv, alpha_lv, c_lv
     )
 
     exponential_et = etuple(
@@ -117,6 +119,15 @@ def invgamma_exponential(invgamma_expr, invexponential_expr):
     )
     invexponential_et = etuple(at.true_divide, at.as_tensor(1.0), exponential_et)
 
+    def scalar_one(S):
+        # N.B. A constant vector of ones also unifies with a scalar one, but the
+        # dimensions it gives to the inverse gamma would be lost
+        alpha = reify(alpha_lv, S)
+        if getattr(getattr(alpha, "type", None), "ndim", 0) == 0:
+            yield from eq(alpha_lv, at.as_tensor(1.0))(S)
+
     return lall(
-        eq(invgamma_expr, invgamma_et), eq(invexponential_expr, invexponential_et)
+        eq(invgamma_expr, invgamma_et),
+        scalar_one,
+        eq(invexponential_expr, invexponential_et),
     )
-- 
2.43.0


From 6977a30d7750d71e171afd83c75a21e6772341d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 23/28] fix: Polya-gamma draws with large z were wrong or NaN

---
 aemcmc/dists.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/aemcmc/dists.py b/aemcmc/dists.py
index ecf5386..a346180 100644
--- a/aemcmc/dists.py
+++ b/aemcmc/dists.py
@@ -21,9 +21,21 @@ class PolyaGammaRV(RandomVariable):
     @classmethod
     def rng_fn(cls, rng, h, z, size=None):
         bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else rng
-        return random_polyagamma(h, z, size=size, random_state=bg).astype(
-            aesara.config.floatX
-        )
+        samples = random_polyagamma(h, z, size=size, random_state=bg)
+
+        # N.B. The samplers for large values of `h` in `random_polyagamma` aren't
+        # accurate, or produce NaNs, when `z` is large.  In this case, the
+        # distribution is numerically indistinguishable from an inverse Gaussian.
+        abs_z = np.abs(z)
+        large_z = abs_z > 20
+        if np.any(large_z):
+            half_h = 0.5 * np.asarray(h, dtype=np.float64)
+            wald_samples = rng.wald(
+                half_h / np.where(large_z, abs_z, 1.0), half_h**2, size=size
+            )
+            samples = np.where(large_z, wald_samples, samples)
+
+        return samples.astype(aesara.config.floatX)
 
 
 polyagamma = PolyaGammaRV()
-- 
2.43.0


From 78831d6c0b28aaad78f4fe0430161260a4971693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 24/28] fix: regression steps gave float64 values for float32
 variables

---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index b07c518..7ab2f12 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -676,7 +676,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
     # Build the `Op` corresponding to the sampling step
-    outputs = [beta_posterior]
+    outputs = [at.cast(beta_posterior, beta_rv.dtype)]
     inputs = get_kernel_inputs([beta_rv, beta_std, X, h, y])
     gibbs = NBRegressionGibbsKernel(inputs, outputs)
 
@@ -832,7 +832,7 @@ def bern_logistic_finder(fgraph, node, srng):
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, -X, y)
 
     # Build the `Op` corresponding to the sampling step
-    outputs = [beta_posterior]
+    outputs = [at.cast(beta_posterior, beta_rv.dtype)]
     inputs = get_kernel_inputs([beta_rv, beta_std, X, y])
     gibbs = BernoulliRegressionGibbsKernel(inputs, outputs)
 
-- 
2.43.0


From 74dc8cf80e49fc9b4b7a1b2a3fe06cde7f72c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 25/28] fix: parameters of beta posteriors overflowed for small
 integer types

---
 aemcmc/conjugates.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 4fa697f..d1a83cb 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -144,9 +144,12 @@ def beta_binomial_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
     Y_et = etuple(etuplize(at.random.binomial), var(), var(), var(), n_lv, p_et)
 
     # Posterior distribution for p
+    # N.B. Sums of parameters with small integer types can overflow
     new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
     new_beta_et = etuple(
-        etuplize(at.sub), etuple(etuplize(at.add), beta_lv, n_lv), observed_rv_expr
+        etuplize(at.sub),
+        etuple(etuplize(at.add), etuple(at.cast, beta_lv, "float64"), n_lv),
+        observed_rv_expr,
     )
     p_posterior_et = etuple(
         partial(srng.gen, at.random.beta),
@@ -228,7 +231,10 @@ def beta_negative_binomial_conjugateo(
     )
 
     new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
-    new_beta_et = etuple(etuplize(at.add), beta_lv, n_lv)
+    # N.B. Sums of parameters with small integer types can overflow
+    new_beta_et = etuple(
+        etuplize(at.add), etuple(at.cast, beta_lv, "float64"), n_lv
+    )
     p_posterior_et = etuple(
         partial(srng.gen, at.random.beta),
         new_alpha_et,
-- 
2.43.0


From 9f8eee69c04ee6f31cc4078dbb48da2ad0d7cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 26/28] fix: counts of small integer types overflowed in
 negative binomial steps

---
 aemcmc/gibbs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 7ab2f12..3f71936 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -11,6 +11,7 @@ from aesara.ifelse import ifelse
 from aesara.tensor.math import Dot
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.basic import BernoulliRV, NegBinomialRV, NormalRV
+from aesara.tensor.type import discrete_dtypes
 from aesara.tensor.var import TensorVariable
 from etuples import etuple, etuplize
 from unification import unify, var
@@ -451,7 +452,8 @@ def sample_CRT(
     """
 
     def single_sample_CRT(y_i: TensorVariable, h: TensorVariable):
-        n_i = at.arange(2, y_i + 1)
+        # N.B. Sums with small integer types can overflow
+        n_i = at.arange(2, at.cast(y_i, "int64") + 1)
         return at.switch(y_i < 1, 0, 1 + srng.bernoulli(h / (n_i - 1 + h)).sum())
 
     res, updates = aesara.scan(
@@ -601,6 +603,10 @@ def nbinom_normal_posterior(srng, beta, beta_std, X, h, y):
 
     """
 
+    # Sums and differences of small (unsigned) integer types can overflow
+    if y.dtype in discrete_dtypes:
+        y = at.cast(y, "int64")
+
     # This effectively introduces a new term, `w`, to the model.
     # TODO: We could/should generate a graph that uses this scale-mixture
     # "expanded" form and find/create the posteriors from there
-- 
2.43.0


From 7171fa5b37ec230ead18419d9f9aed34d8062777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:21 +0000
Subject: [PATCH 27/28] fix: the normal samplers gave wrong draws for integer
 precision matrices and responses

The Cholesky factor of an integer matrix was truncated to integers, and
Aesara's BLAS rewrites dropped an integer response from the residual.
---
 aemcmc/dists.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aemcmc/dists.py b/aemcmc/dists.py
index a346180..2e9584e 100644
--- a/aemcmc/dists.py
+++ b/aemcmc/dists.py
@@ -4,6 +4,7 @@ import numpy as np
 from aesara.sparse.basic import _is_sparse_variable, dense_from_sparse
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
+from aesara.tensor.type import discrete_dtypes
 from aesara.tensor.var import TensorVariable
 from polyagamma import random_polyagamma
 
@@ -61,6 +62,11 @@ def multivariate_normal_rue2005(rng, b, Q):
     """
     if _is_sparse_variable(Q):
         Q = dense_from_sparse(Q)
+
+    # The factor of an integer matrix would be truncated to integers
+    if Q.dtype in discrete_dtypes:
+        Q = at.cast(Q, aesara.config.floatX)
+
     L = at.linalg.cholesky(Q)
     w = at.slinalg.solve_triangular(L, b, lower=True)
     u = at.slinalg.solve_triangular(L.T, w, lower=False)
@@ -145,6 +151,10 @@ def multivariate_normal_cong2017(
           “Fast sampling with Gaussian scale mixture priors in high-dimensional
           regression.” Biometrika, 103(4): 985.033
     """
+    # Aesara's BLAS rewrites can drop integer terms from sums with products
+    if t.dtype in discrete_dtypes:
+        t = at.cast(t, aesara.config.floatX)
+
     A_inv = 1 / A
     a_rows = A.shape[0]
     z = rng.standard_normal(size=a_rows + omega.shape[0])
-- 
2.43.0


From bb9688c3c3a7166a083b0b880520e164ec683d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:07 +0000
Subject: [PATCH 28/28] fix: Polya-gamma draws for the smallest values of
 integer types

The absolute value of e.g. -128 as an int8 is negative.
---
 aemcmc/dists.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aemcmc/dists.py b/aemcmc/dists.py
index 2e9584e..323a608 100644
--- a/aemcmc/dists.py
+++ b/aemcmc/dists.py
@@ -27,7 +27,7 @@ class PolyaGammaRV(RandomVariable):
         # N.B. The samplers for large values of `h` in `random_polyagamma` aren't
         # accurate, or produce NaNs, when `z` is large.  In this case, the
         # distribution is numerically indistinguishable from an inverse Gaussian.
-        abs_z = np.abs(z)
+        abs_z = np.abs(np.asarray(z, dtype=np.float64))
         large_z = abs_z > 20
         if np.any(large_z):
             half_h = 0.5 * np.asarray(h, dtype=np.float64)
-- 
2.43.0

