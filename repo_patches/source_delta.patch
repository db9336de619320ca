From a10fab6531a18c47db9bdce2624fa1d283fc65a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 01/72] fix: numba ewma no longer modifies the state passed to
 it

---
 src/wax/numba/ewma_numba.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 4bdca13..8494fc1 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -115,9 +115,10 @@ def ewma(
 
         if state is None:
             state = init_ewma_state(values)
-        mean = state.mean
-        old_wt = state.old_wt
-        nobs = state.nobs
+        # work on copies: the arrays are updated in place in numba_apply
+        mean = np.array(state.mean)
+        old_wt = np.array(state.old_wt)
+        nobs = np.array(state.nobs)
 
         res, mean, old_wt, nobs = numba_apply(values, mean, old_wt, nobs)
         state = EWMAState(mean, old_wt, nobs)
-- 
2.43.0


From d820416793d41487868be08e56f64924679d6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 02/72] fix: Lag with return_state returns the lagged value and
 the buffer state

---
 src/wax/modules/lag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/modules/lag.py b/src/wax/modules/lag.py
index 36c724f..e030349 100644
--- a/src/wax/modules/lag.py
+++ b/src/wax/modules/lag.py
@@ -29,6 +29,9 @@ class Lag(Buffer):
         self.lag = lag
 
     def __call__(self, x):
+        if self.return_state:
+            buffer, state = super().__call__(x)
+            return buffer[0], state
         buffer = super().__call__(x)
         return buffer[0]
 
-- 
2.43.0


From 6501b2f4f3874ffa6dceb52fb1aee4b7c42fa5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 03/72] fix: PctChange without fill method passes the
 observation to Lag

---
 src/wax/modules/pct_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 7525485..11259fb 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -54,7 +54,7 @@ class PctChange(hk.Module):
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
-            previous_x = Lag(self.periods)()
+            previous_x = Lag(self.periods)(x)
         pct_change = x / previous_x - 1.0
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
-- 
2.43.0


From e1d605278e2fd4f51ba56d681e41da138168df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 04/72] fix: MaskStd subtracts the mean along the requested
 axis

---
 src/wax/modules/mask_std.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/modules/mask_std.py b/src/wax/modules/mask_std.py
index 8d32888..3bfcf98 100644
--- a/src/wax/modules/mask_std.py
+++ b/src/wax/modules/mask_std.py
@@ -56,6 +56,8 @@ class MaskStd(hk.Module):
             if self.assume_centered:
                 diff = x
             else:
+                if self.axis is not None:
+                    mean = jnp.expand_dims(mean, self.axis)
                 diff = x - mean
 
             diff = ApplyMask()(mask, diff)
-- 
2.43.0


From bd03e42260997531cdf38efd519f2ff018c83dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 05/72] fix: MaskNormalize divides by the deviation along the
 requested axis

---
 src/wax/modules/mask_normalize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index e7067df..f7d6fd1 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -14,6 +14,7 @@
 """Normalize data by its standard deviation computed with a mask."""
 
 import haiku as hk
+import jax.numpy as jnp
 from jax.tree_util import tree_map
 
 from wax.modules.fill_nan_inf import FillNanInf
@@ -45,6 +46,8 @@ class MaskNormalize(hk.Module):
 
         def normalize(x):
             x_std = MaskStd(axis=self.axis, assume_centered=self.assume_centered)(mask, x)
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = FillNanInf()(x / x_std)
             return x_normalized
 
-- 
2.43.0


From 0eb85cb9e10925340e2dbea604509e5a0d50e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 06/72] fix: flax MaskStd counts missing selected entries as
 zero when centring

---
 src/wax/flax/modules/mask_std.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/mask_std.py b/src/wax/flax/modules/mask_std.py
index 967b86b..22c19c6 100644
--- a/src/wax/flax/modules/mask_std.py
+++ b/src/wax/flax/modules/mask_std.py
@@ -74,7 +74,7 @@ class MaskStd(nn.Module):
                         mean = mean[None, ...] if x.ndim > 1 else mean
                     elif self.axis == 1:
                         mean = mean[..., None] if x.ndim > 1 else mean
-                diff = x - mean
+                diff = x_masked - mean
 
                 # Re-mask the differences
                 diff = self.apply_mask(mask, diff)
-- 
2.43.0


From a53aadb1a3565889295cb06cda9fbb69935a2358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 07/72] fix: flax MaskNormalize divides by the deviation along
 the requested axis

---
 src/wax/flax/modules/mask_normalize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index f8a8498..a8c3888 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -53,6 +53,10 @@ class MaskNormalize(nn.Module):
             # Compute standard deviation over masked regions
             x_std = self.mask_std(mask, x)
 
+            # Broadcast the standard deviation back along the reduced axis
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
+
             # Normalize by dividing by standard deviation
             x_normalized = x / x_std
 
-- 
2.43.0


From 68fc48d6b47390ade39e45d7d508e9420a5acb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 08/72] fix: flax ARMA applies its coefficients to the past
 outputs and noise terms

---
 src/wax/flax/modules/arma.py | 60 +++++++++++++++---------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/wax/flax/modules/arma.py b/src/wax/flax/modules/arma.py
index 777aa23..400b196 100644
--- a/src/wax/flax/modules/arma.py
+++ b/src/wax/flax/modules/arma.py
@@ -29,9 +29,9 @@ class ARMA(nn.Module):
     moving average (MA) components for time-series processing.
 
     The ARMA model is defined as:
-    y[t] = sum(alpha[i] * y[t-i]) + sum(beta[j] * eps[t-j])
+    y[t] = eps[t] + sum(alpha[i] * y[t-i]) + sum(beta[j] * eps[t-j])
 
-    where:
+    where the coefficients are given from the oldest to the latest term and:
     - alpha: AR coefficients
     - beta: MA coefficients
     - eps: Input noise/error terms
@@ -48,18 +48,13 @@ class ARMA(nn.Module):
         if self.beta.ndim != 1:
             raise ValueError("beta must be a 1-D array")
 
-        # Create buffers for AR and MA components
-        # AR buffer stores previous outputs
-        if len(self.alpha) > 0:
-            self.ar_buffer = Buffer(maxlen=len(self.alpha), fill_value=0.0)
-
-        # MA buffer stores previous inputs (noise terms)
-        if len(self.beta) > 0:
-            self.ma_buffer = Buffer(maxlen=len(self.beta), fill_value=0.0)
+        # MA buffer stores the current and the previous inputs (noise terms)
+        self.ma_buffer = Buffer(maxlen=len(self.beta) + 1, fill_value=0.0)
 
         # Module for handling NaN/Inf values
         self.fill_nan_inf = FillNanInf()
 
+    @nn.compact
     def __call__(self, eps: jnp.ndarray) -> jnp.ndarray:
         """Apply ARMA filter to input noise term.
 
@@ -72,36 +67,29 @@ class ARMA(nn.Module):
         # Ensure input is an array
         eps = jnp.asarray(eps)
 
-        # Initialize output with current input (eps term)
-        output = eps
-
-        # Autoregressive component: sum(alpha[i] * y[t-i])
-        if len(self.alpha) > 0:
-            # Get previous outputs from AR buffer (placeholder initialization)
-            # Get current state; the buffer is built with return_state left at
-            # its default (False), so the call yields the array alone.
-            ar_history = cast(jnp.ndarray, self.ar_buffer(jnp.zeros_like(output)))
-
-            # Compute AR contribution
-            ar_contribution = jnp.sum(self.alpha * ar_history)
-            output = output + ar_contribution
-
-        # Moving average component: sum(beta[j] * eps[t-j])
-        if len(self.beta) > 0:
-            # Get previous inputs from MA buffer
-            ma_history = cast(jnp.ndarray, self.ma_buffer(eps))
-
-            # Compute MA contribution
-            ma_contribution = jnp.sum(self.beta * ma_history)
-            output = output + ma_contribution
-
-        # Update AR buffer with current output
-        if len(self.alpha) > 0:
-            self.ar_buffer(output)  # Store current output for next iteration
+        # Previous outputs (oldest first)
+        y_history: nn.Variable[jnp.ndarray] = self.variable(
+            "state",
+            "y_history",
+            lambda: jnp.zeros((len(self.alpha),) + eps.shape, dtype=eps.dtype),
+        )
+        # Previous inputs (oldest first). The buffer is built with return_state
+        # left at its default (False), so the call yields the array alone.
+        eps_history = cast(jnp.ndarray, self.ma_buffer(eps))[:-1]
+
+        # Current input, autoregressive and moving average components
+        output = (
+            eps
+            + jnp.tensordot(self.alpha, y_history.value, axes=1)
+            + jnp.tensordot(self.beta, eps_history, axes=1)
+        )
 
         # Handle NaN/Inf values
         output = self.fill_nan_inf(output)
 
+        # Store current output for next iteration
+        y_history.value = jnp.concatenate([y_history.value, output[None]])[1:]
+
         return output
 
 
-- 
2.43.0


From 3c78b57a5557167b43438cc63426ec3f7049a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 09/72] fix: flax OHLC ignores missing observations

---
 src/wax/flax/modules/ohlc.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/wax/flax/modules/ohlc.py b/src/wax/flax/modules/ohlc.py
index 6786b26..3dd4796 100644
--- a/src/wax/flax/modules/ohlc.py
+++ b/src/wax/flax/modules/ohlc.py
@@ -71,26 +71,22 @@ class OHLC(nn.Module):
             "state", "close", lambda: jnp.full(input.shape, jnp.nan, input.dtype)
         )
 
-        # Get current state values
-        current_open = open_val.value
-        current_high = high_val.value
-        current_low = low_val.value
-        # The previous close is never needed: CLOSE is always the latest input.
-
-        # Determine if this is the first valid input or a reset
-        is_first_or_reset = should_reset | jnp.isnan(current_open)
-
-        # Update OPEN: set to input if first/reset, otherwise keep current
-        new_open = jnp.where(is_first_or_reset, input, current_open)
-
-        # Update HIGH: max of current high and input, or input if first/reset
-        new_high = jnp.where(is_first_or_reset, input, jnp.maximum(current_high, input))
-
-        # Update LOW: min of current low and input, or input if first/reset
-        new_low = jnp.where(is_first_or_reset, input, jnp.minimum(current_low, input))
-
-        # Update CLOSE: always set to current input
-        new_close = input
+        # Start an empty bin on reset, otherwise carry the current one
+        missing = jnp.full(input.shape, jnp.nan, input.dtype)
+        current_open = jnp.where(should_reset, missing, open_val.value)
+        current_high = jnp.where(should_reset, missing, high_val.value)
+        current_low = jnp.where(should_reset, missing, low_val.value)
+        current_close = jnp.where(should_reset, missing, close_val.value)
+
+        # Update CLOSE: latest non-missing input
+        new_close = jnp.where(jnp.isnan(input), current_close, input)
+
+        # Update OPEN: first non-missing input
+        new_open = jnp.where(jnp.isnan(current_open), new_close, current_open)
+
+        # Update HIGH and LOW, ignoring missing values
+        new_high = jnp.fmax(current_high, new_close)
+        new_low = jnp.fmin(current_low, new_close)
 
         # Update state variables
         open_val.value = new_open
-- 
2.43.0


From 342ed1a1408994ad0bec092d7c2846bbf6b55335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 10/72] fix: ARMA weights the past terms along the time axis
 for noise of any rank

---
 src/wax/modules/arma.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wax/modules/arma.py b/src/wax/modules/arma.py
index 4648ef6..492de8e 100644
--- a/src/wax/modules/arma.py
+++ b/src/wax/modules/arma.py
@@ -38,7 +38,11 @@ class ARMA(hk.Module):
             init=lambda shape, dtype: jnp.zeros(((len(self.alpha),) + shape), dtype=dtype),
         )
 
-        y = self.alpha @ y_buffer + self.beta @ eps_buffer + eps
+        y = (
+            jnp.tensordot(self.alpha, y_buffer, axes=1)
+            + jnp.tensordot(self.beta, eps_buffer, axes=1)
+            + eps
+        )
 
         y = FillNanInf()(y)
 
-- 
2.43.0


From df629271e300129761535d29755aed49f9692721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 11/72] fix: gym_static_unroll keeps the first output when it
 is not skipped

---
 src/wax/unroll.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index b7f7dec..9d06e47 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -417,8 +417,7 @@ def gym_static_unroll(gym_fun, params, state, seq, skip_first, data_generator, p
     if not skip_first:
         y, state = gym_fun.apply(params, state, next(seq), obs)
         y, treedef = tree_flatten(y)
-        if ys is None:
-            ys = tuple([] for _ in y)
+        ys = tuple([y_] for y_ in y)
 
     if pbar:
         data_generator = tqdm(data_generator, desc="gym_static_unroll")
-- 
2.43.0


From a799c58d6c661a052a99fa6eeab868edbd32d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 12/72] fix: static_scan without inputs runs the given number
 of steps

---
 src/wax/unroll.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 9d06e47..7de6bfe 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -258,10 +258,12 @@ def static_scan(scan_f, init, xs=None, length=None, pbar=False):
     See https://jax.readthedocs.io/en/latest/_autosummary/jax.lax.scan.html#jax-lax-scan
     """
     if xs is None:
-        xs = [None] * length
+        steps = (None for _ in range(length))
+    else:
+        steps = iter_first_axis(xs, pbar=pbar)
     carry = init
     ys = None
-    for x in iter_first_axis(xs, pbar=pbar):
+    for x in steps:
         carry, y = scan_f(carry, x)
 
         y, treedef = tree_flatten(y)
-- 
2.43.0


From 2fa6eb9682ddea6a4193eb3629c08ef337ee29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 13/72] fix: dynamic_unroll_fori_loop supports nested and
 integer outputs

---
 src/wax/unroll.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 7de6bfe..09a48c8 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -347,9 +347,7 @@ def dynamic_unroll_fori_loop(
     output_template, _ = fun.apply(params, state, rng, *args_0, **kwargs_0)
 
     T = len(tree_flatten(xs)[0][0])
-    output_sequence = tree_map(
-        lambda x: jnp.full((T,) + x.shape, jnp.nan, x.dtype), output_template
-    )
+    output_sequence = tree_map(lambda x: jnp.zeros((T,) + x.shape, x.dtype), output_template)
 
     # run loop
     loop_state = LoopState(params, state, rng, xs, output_sequence)
@@ -359,7 +357,7 @@ def dynamic_unroll_fori_loop(
         params, prev_state, rng, inputs, output_sequence = loop_state
         args_i, kwargs_i = tree_map(lambda x: x[i], inputs)
         outputs, next_state = fun.apply(params, prev_state, rng, *args_i, **kwargs_i)
-        output_sequence = output_sequence.at[i].set(outputs)
+        output_sequence = tree_map(lambda ys, y: ys.at[i].set(y), output_sequence, outputs)
         return LoopState(
             params,
             next_state,
-- 
2.43.0


From 3b5f8125c48852affb4afa99ee0406bc6692931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 14/72] fix: dynamic_unroll_fori_loop renews the random key at
 every step

---
 src/wax/unroll.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 09a48c8..b8324d5 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -356,7 +356,11 @@ def dynamic_unroll_fori_loop(
     def body_fun(i, loop_state):
         params, prev_state, rng, inputs, output_sequence = loop_state
         args_i, kwargs_i = tree_map(lambda x: x[i], inputs)
-        outputs, next_state = fun.apply(params, prev_state, rng, *args_i, **kwargs_i)
+        if rng is not None:
+            (rng, sub_rng) = jax.random.split(rng)
+        else:
+            sub_rng = None
+        outputs, next_state = fun.apply(params, prev_state, sub_rng, *args_i, **kwargs_i)
         output_sequence = tree_map(lambda ys, y: ys.at[i].set(y), output_sequence, outputs)
         return LoopState(
             params,
-- 
2.43.0


From 06034ca02fe6dcb2768c3394c0e1f2c149722980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 15/72] fix: transform_batch_with_state uses the random key
 given to apply

---
 src/wax/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/transform.py b/src/wax/transform.py
index dd8037a..588c8aa 100644
--- a/src/wax/transform.py
+++ b/src/wax/transform.py
@@ -54,10 +54,11 @@ def transform_batch_with_state(fun, skip_first=False):
     def apply(params, state, key, xs):
         # params is not used ... (and is empty)
         # replace state rng_key by given rng_key
+        init_state = BatchState(state.fun_params, state.fun_state, key)
         # we drop the first observation because it has been used in initialization....
         if skip_first:
             xs = tree_map(lambda x: x[1:], xs)
-        final_state, output_sequence = jax.lax.scan(scan_f, init=state, xs=xs)
+        final_state, output_sequence = jax.lax.scan(scan_f, init=init_state, xs=xs)
         assert isinstance(final_state, BatchState)
         return output_sequence, final_state
 
-- 
2.43.0


From 22c634b4352b3cb87f8cb7fdbda8f2d45ea8a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 16/72] fix: transform_batch_with_state renews the random key
 at every step

---
 src/wax/transform.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/wax/transform.py b/src/wax/transform.py
index 588c8aa..6c0e6f4 100644
--- a/src/wax/transform.py
+++ b/src/wax/transform.py
@@ -43,7 +43,11 @@ def transform_batch_with_state(fun, skip_first=False):
 
     def scan_f(prev_state, inputs):
         fun_params, fun_state, key = prev_state
-        outputs, fun_state = fun.apply(fun_params, fun_state, key, inputs)
+        if key is not None:
+            key, sub_key = jax.random.split(key)
+        else:
+            sub_key = None
+        outputs, fun_state = fun.apply(fun_params, fun_state, sub_key, inputs)
         return BatchState(fun_params, fun_state, key), outputs
 
     def init(key, xs):
@@ -72,7 +76,11 @@ def transform_batch_with_state_static(fun, skip_first=False, pbar=True):
 
     def scan_f(prev_state, inputs):
         fun_params, fun_state, key = prev_state
-        outputs, fun_state = fun.apply(fun_params, fun_state, key, inputs)
+        if key is not None:
+            key, sub_key = jax.random.split(key)
+        else:
+            sub_key = None
+        outputs, fun_state = fun.apply(fun_params, fun_state, sub_key, inputs)
         return BatchState(fun_params, fun_state, key), outputs
 
     def init(key, xs):
-- 
2.43.0


From 9fc9139daf5dd9c152a5842ed8c9e8cf8fa67d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 17/72] fix: secondary streams deliver their first row once

---
 src/wax/stream.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index f45c037..070cf9e 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -592,6 +592,7 @@ class Stream:
         _output_values: dict = {}
         stream_obs: dict = {}
         buffers: dict = {}
+        local_time = self.get_local_time(streams)
         for time_dim, stream in streams.items():
             # initialization of the generators (first call to next)
             stream_obs[time_dim] = next(stream)
@@ -627,13 +628,17 @@ class Stream:
             buffer_output = buffers[time_dim](init_obs)
             _output_values[time_dim] = buffer_output
 
+            if time_dim != local_time:
+                # the first observation has only been used for initialization,
+                # the stream yields it again.
+                stream_obs[time_dim] = next(stream)
+
         generator_state = GeneratorState(_output_values, stream_obs)
 
         # initialization
         # yield _output_values
 
         original_streams = streams.copy()
-        local_time = self.get_local_time(streams)
         while True:
             # local loop
             streams = original_streams.copy()
-- 
2.43.0


From 8658988bff53c9cc1e807eab7726394b0c877f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 18/72] fix: unroll_stream collects every leaf when the first
 is skipped

---
 src/wax/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 070cf9e..8532d12 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -303,7 +303,7 @@ def unroll_stream(
     # stream_scan
     def _init_outputs():
         if skip_first:
-            return [[]] * num_leaves
+            return [[] for _ in range(num_leaves)]
         else:
             return [[x] for x in obs_flat]
 
-- 
2.43.0


From c1eaa4652f8ebcf7af33b58a68707d5b881d80ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 19/72] fix: variables without time axis are presented whole at
 every step

---
 src/wax/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 8532d12..93a874d 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -224,10 +224,10 @@ def get_dataset_index(dataset: xr.Dataset, time_dataset_index: xr.Dataset) -> xr
                 dataset_index[dim] = xr.DataArray(onp.arange(n_steps), dims=("step",))
             else:
                 values_atleast_1d = onp.atleast_1d(var.values)
-                # grid = onp.indices(values_atleast_1d.shape)
-                flat_idx = onp.arange(len(values_atleast_1d.ravel()))
+                # the whole variable is accessed at each step
+                idx = onp.arange(len(values_atleast_1d))
                 dataset_index[dim] = xr.DataArray(
-                    onp.outer(onp.arange(n_steps), flat_idx),
+                    onp.tile(idx, (n_steps, 1)),
                     dims=("step", cast(str, dim) + "_flat_idx"),
                 )
     return dataset_index
-- 
2.43.0


From cb0f5ec781a9ae1c5cd7dae686b58256bb8757e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 20/72] fix: buffered rows of variables with several dimensions
 are masked row by row

---
 src/wax/stream.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 93a874d..8570314 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -358,10 +358,12 @@ def access_data(step: int, x: Any, idx: Any):
     """
     step_idx = idx[step]
     # output = x[step_idx]
+    rows = jnp.atleast_1d(x)[step_idx]
+    missing = jnp.reshape(step_idx < 0, step_idx.shape + (1,) * (rows.ndim - step_idx.ndim))
     output = jnp.where(
-        step_idx < 0,
-        jnp.full_like(jnp.atleast_1d(x)[step_idx], DTYPE_INIT_VALUES[x.dtype.type]),
-        jnp.atleast_1d(x)[step_idx],
+        missing,
+        jnp.full_like(rows, DTYPE_INIT_VALUES[x.dtype.type]),
+        rows,
     )
     return output
 
-- 
2.43.0


From d1fe0e503b3d76428d4ec83e870454807211c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 21/72] fix: lifted functions used side by side keep separate
 states

---
 src/wax/stateful.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/wax/stateful.py b/src/wax/stateful.py
index 65fccd1..068bf97 100644
--- a/src/wax/stateful.py
+++ b/src/wax/stateful.py
@@ -15,10 +15,21 @@ from collections.abc import Callable
 
 import haiku as hk
 import jax
-from haiku.experimental import lift_with_state
+from haiku.experimental import transparent_lift_with_state
 from jax.tree_util import tree_map
 
 
+class _Lift(hk.Module):
+    """Lift parameters and state under the name of this module.
+
+    The name is unique in its scope, so that several lifted functions used
+    side by side keep separate states.
+    """
+
+    def __call__(self, init_fn: Callable):
+        return transparent_lift_with_state(init_fn)
+
+
 def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
     if split_rng and not init_rng:
         raise ValueError("split_rng=True requires init_rng=True")
@@ -33,9 +44,7 @@ def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
             def init_fn(*args, **kwargs):
                 return tfun.init(rng, *args, **kwargs)
 
-            params_and_state_fn, updater = hk.experimental.lift_with_state(
-                init_fn, name="vmap_lift"
-            )
+            params_and_state_fn, updater = _Lift(name="vmap_lift")(init_fn)
             params, state = params_and_state_fn(*args, **kwargs)
 
             @jax.vmap
@@ -55,9 +64,7 @@ def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
             def init_fn(rng, *args, **kwargs):
                 return tfun.init(rng, *args, **kwargs)
 
-            params_and_state_fn, updater = hk.experimental.lift_with_state(
-                init_fn, name="vmap_lift"
-            )
+            params_and_state_fn, updater = _Lift(name="vmap_lift")(init_fn)
             params, state = params_and_state_fn(rng, *args, **kwargs)
 
             @jax.vmap
@@ -80,7 +87,7 @@ def unroll_lift_with_state(fn: Callable, skip_first=False, split_rng=False, init
 
     def apply_fn(*args, **kwargs):
         tfn = hk.transform_with_state(fn)
-        params_and_state_fn, updater = lift_with_state(tfn.init, name="unroll_lift")
+        params_and_state_fn, updater = _Lift(name="unroll_lift")(tfn.init)
 
         def init(xs):
             args_0, kwargs_0 = tree_map(lambda x: x[0], xs)
-- 
2.43.0


From f1fbdf15ffae8a7275edd08a1af74e75ba9c283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 22/72] fix: less orders codes of negative integers and dates
 before the epoch

---
 src/wax/encode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index ce6c11d..f3f54e8 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -201,6 +201,9 @@ def datetime64_encoder(values: Any) -> Encoder:
 def less(t1, t2):
     h1, l1 = t1
     h2, l2 = t2
+    # the high part carries the sign: flip it to compare unsigned integers
+    sign = onp.uint32(0x80000000)
+    h1, h2 = h1 ^ sign, h2 ^ sign
     if h1 < h2:
         return True
     elif h1 > h2:
-- 
2.43.0


From c9718786b4d6b55207ee12f94da0ef1cb62f861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 23/72] fix: dates are encoded in arrays of any shape

---
 src/wax/encode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index f3f54e8..751ea43 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -190,10 +190,13 @@ def string_encoder(values: Any) -> Encoder:
 
 def datetime64_encoder(values: Any) -> Encoder:
     def encode(value):
-        return onp.stack(list(map(encode_datetime64, value)))
+        codes = onp.array(list(map(encode_datetime64, onp.ravel(value))), onp.uint32)
+        return codes.reshape(onp.shape(value) + (2,))
 
     def decode(code):
-        return onp.stack(list(map(decode_datetime64, [code[i] for i in range(len(code))])))
+        code = onp.asarray(code)
+        dates = onp.array(list(map(decode_datetime64, code.reshape(-1, 2))), "<M8[ns]")
+        return dates.reshape(code.shape[:-1])
 
     return Encoder(encode, decode)
 
-- 
2.43.0


From a6a26aae9078b6f0ab916ccdf08caa92831bbfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 24/72] fix: scalar strings can be encoded

---
 src/wax/encode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index 751ea43..630fc08 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -168,7 +168,7 @@ def string_encoder(values: Any) -> Encoder:
     ravel = False
     original_shape = None
 
-    if values.ndim > 1:
+    if values.ndim != 1:
         ravel = True
         original_shape = values.shape
         values = values.ravel()
-- 
2.43.0


From 89a14d4f65756ef48dfff2df11a84cd075a6aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 25/72] fix: accessors label the outputs when the first
 observation is skipped

---
 src/wax/accessors.py | 20 ++++++++++++--------
 src/wax/stream.py    |  7 +++++++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index b11eb73..7ea455e 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -74,12 +74,13 @@ class StreamDataset(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
             try:
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -137,15 +138,16 @@ class StreamDataArray(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -215,13 +217,14 @@ class StreamDataFrame(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
 
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -230,7 +233,7 @@ class StreamDataFrame(Stream):
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -292,15 +295,16 @@ class StreamSeries(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
         if self.return_state:
             return outputs, state
         else:
diff --git a/src/wax/stream.py b/src/wax/stream.py
index 8570314..e1ff3b8 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -480,6 +480,13 @@ class Stream:
         schema = DatasetSchema(coords=xdata.coords, encoders=encoders)
         return schema
 
+    def get_output_coords(self, dataset: xr.Dataset, skip_first: bool = False):
+        """Coordinates of the outputs: the first local time is left out if it is skipped."""
+        if skip_first:
+            local_time = self.get_local_time(dict.fromkeys(get_dataset_time_coords(dataset)))
+            dataset = dataset.isel({local_time: slice(1, None)})
+        return dataset.coords
+
     def get_encoders(self, dataset):
         schema = self.get_dataset_schema(dataset)
         return schema.encoders
-- 
2.43.0


From a899fd285a587713ac0cb2562362094d239fb53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 26/72] fix: flax optimisers default to training all parameters

---
 src/wax/flax/modules/online_optimizer.py | 12 +++++-------
 src/wax/flax/modules/update_params.py    | 16 ++++++----------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index b09e228..16f0cc0 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -22,6 +22,8 @@ import jax
 import jax.numpy as jnp
 from jax.tree_util import tree_map
 
+from wax.predicate import pass_all_predicate
+
 from .optax_optimizer import OptaxOptimizer
 
 
@@ -51,12 +53,6 @@ class OnlineOptimizer(nn.Module):
 
     def setup(self):
         """Setup the OnlineOptimizer module."""
-        # Set default predicate if none provided
-        if self.params_predicate is None:
-            from wax.predicate import pass_all_predicate
-
-            self.params_predicate = pass_all_predicate
-
         # Wrap optimizer if it's not already an OptaxOptimizer
         if not isinstance(self.opt, OptaxOptimizer):
             if hasattr(self.opt, "init") and hasattr(self.opt, "update"):
@@ -124,6 +120,8 @@ class OnlineOptimizer(nn.Module):
             state = {}
 
         # Partition parameters into trainable and non-trainable
+        is_trainable = self.params_predicate or pass_all_predicate
+
         def partition_params(params):
             trainable = {}
             non_trainable = {}
@@ -134,7 +132,7 @@ class OnlineOptimizer(nn.Module):
 
             for key, value in flat_params.items():
                 path = key.split("/")
-                if self.params_predicate(path[0] if path else "", path[-1] if path else "", value):
+                if is_trainable(path[0] if path else "", path[-1] if path else "", value):
                     trainable[key] = value
                 else:
                     non_trainable[key] = value
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 7d39d2e..cbd7470 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -20,6 +20,8 @@ import flax.linen as nn
 import jax
 from flax.traverse_util import flatten_dict, unflatten_dict
 
+from wax.predicate import pass_all_predicate
+
 
 class UpdateParams(nn.Module):
     """Flax-based module for separating trainable from non-trainable parameters.
@@ -31,14 +33,6 @@ class UpdateParams(nn.Module):
     fun: Callable  # Function to wrap
     predicate: Callable | None = None  # Predicate to determine trainable params
 
-    def setup(self):
-        """Setup the UpdateParams module."""
-        # Set default predicate if none provided
-        if self.predicate is None:
-            from wax.predicate import pass_all_predicate
-
-            self.predicate = pass_all_predicate
-
     @nn.compact
     def __call__(self, *args, **kwargs) -> Any:
         """Apply function with parameter partitioning.
@@ -78,9 +72,11 @@ class UpdateParams(nn.Module):
         Returns:
             Tuple of (trainable_params, non_trainable_params)
         """
+        is_trainable = self.predicate or pass_all_predicate
+
         if not isinstance(params, dict):
             # If params is not a dict, treat as single parameter
-            if self.predicate("", "", params):
+            if is_trainable("", "", params):
                 return params, {}
             else:
                 return {}, params
@@ -98,7 +94,7 @@ class UpdateParams(nn.Module):
             param_name = path_parts[-1] if len(path_parts) > 0 else ""
 
             # Apply predicate to determine if parameter is trainable
-            if self.predicate(module_name, param_name, value):
+            if is_trainable(module_name, param_name, value):
                 trainable[key] = value
             else:
                 non_trainable[key] = value
-- 
2.43.0


From aebf7512ac68a0c2d614ec38fee40252f6a945cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 27/72] fix: flax optimisers keep both kinds of parameters of
 one module

---
 src/wax/flax/modules/online_optimizer.py |  9 +++------
 src/wax/flax/modules/update_params.py    | 10 ++++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index 16f0cc0..dadb61f 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -25,6 +25,7 @@ from jax.tree_util import tree_map
 from wax.predicate import pass_all_predicate
 
 from .optax_optimizer import OptaxOptimizer
+from .update_params import merge_nested
 
 
 @dataclass
@@ -144,9 +145,7 @@ class OnlineOptimizer(nn.Module):
         # Define loss function for gradient computation
         def loss_fn(trainable_params):
             # Merge trainable and non-trainable params
-            merged_params = {}
-            merged_params.update(non_trainable_params)
-            merged_params.update(trainable_params)
+            merged_params = merge_nested(trainable_params, non_trainable_params)
 
             # Compute model output
             result = model_fn(merged_params, state, *args, **kwargs)
@@ -182,9 +181,7 @@ class OnlineOptimizer(nn.Module):
             updated_trainable_params = self.project_params(updated_trainable_params)
 
         # Merge back updated parameters
-        updated_params = {}
-        updated_params.update(non_trainable_params)
-        updated_params.update(updated_trainable_params)
+        updated_params = merge_nested(updated_trainable_params, non_trainable_params)
 
         # Update model variables
         if "params" in current_vars:
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index cbd7470..41e4395 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -23,6 +23,11 @@ from flax.traverse_util import flatten_dict, unflatten_dict
 from wax.predicate import pass_all_predicate
 
 
+def merge_nested(params: dict, defaults: dict) -> dict:
+    """Merge nested dictionaries, the entries of ``params`` have precedence."""
+    return unflatten_dict({**flatten_dict(defaults), **flatten_dict(params)})
+
+
 class UpdateParams(nn.Module):
     """Flax-based module for separating trainable from non-trainable parameters.
 
@@ -126,10 +131,7 @@ class UpdateParams(nn.Module):
 
         # For dictionaries, merge recursively
         if isinstance(trainable_params, dict) and isinstance(non_trainable_params, dict):
-            result = {}
-            result.update(non_trainable_params)
-            result.update(trainable_params)
-            return result
+            return merge_nested(trainable_params, non_trainable_params)
 
         # For other types, prefer trainable parameters
         return trainable_params
-- 
2.43.0


From 64038fe0035faeee5e6bdf97a98137ef81cd9ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 28/72] fix: flax OnlineOptimizer carries the state of its
 model

---
 src/wax/flax/modules/online_optimizer.py | 41 +++++++++++-------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index dadb61f..dd96e89 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -18,6 +18,7 @@ from dataclasses import dataclass
 from typing import Any
 
 import flax.linen as nn
+import haiku as hk
 import jax
 import jax.numpy as jnp
 from jax.tree_util import tree_map
@@ -80,9 +81,10 @@ class OnlineOptimizer(nn.Module):
         # name ("params", "state", ...); empty until the model has been initialized.
         model_vars: nn.Variable[dict[str, Any]] = self.variable("model_vars", "vars", lambda: {})
 
-        # Check if model is a TransformedWithState or regular function
-        if hasattr(self.model, "init") and hasattr(self.model, "apply"):
-            # It's a TransformedWithState
+        # Check if model is a Flax module, a TransformedWithState or regular function
+        is_haiku = isinstance(self.model, hk.TransformedWithState)
+        if hasattr(self.model, "init") and hasattr(self.model, "apply") and not is_haiku:
+            # It's a Flax module
             if not model_vars.value:
                 # Initialize model
                 dummy_rng = jax.random.PRNGKey(0)
@@ -91,16 +93,11 @@ class OnlineOptimizer(nn.Module):
 
             def model_fn(params, state, *args, **kwargs):
                 vars_dict = {"params": params, **state}
-                result = self.model.apply(vars_dict, *args, **kwargs)
-                return result
+                return self.model.apply(vars_dict, *args, mutable=list(state), **kwargs)
 
         else:
-            # It's a regular function - need to transform it
-            import haiku as hk
-
-            @hk.transform_with_state
-            def wrapped_model(*args, **kwargs):
-                return self.model(*args, **kwargs)
+            # A regular function needs to be transformed
+            wrapped_model = self.model if is_haiku else hk.transform_with_state(self.model)
 
             if not model_vars.value:
                 dummy_rng = jax.random.PRNGKey(0)
@@ -108,7 +105,10 @@ class OnlineOptimizer(nn.Module):
                 model_vars.value = {"params": params, "state": state}
 
             def model_fn(params, state, *args, **kwargs):
-                return wrapped_model.apply(params, state, jax.random.PRNGKey(0), *args, **kwargs)
+                result, new_state = wrapped_model.apply(
+                    params, state["state"], jax.random.PRNGKey(0), *args, **kwargs
+                )
+                return result, {"state": new_state}
 
         # Extract current parameters and state
         current_vars = model_vars.value
@@ -129,16 +129,13 @@ class OnlineOptimizer(nn.Module):
 
             from flax.traverse_util import flatten_dict, unflatten_dict
 
-            flat_params = flatten_dict(params, sep="/")
-
-            for key, value in flat_params.items():
-                path = key.split("/")
+            for path, value in flatten_dict(params).items():
                 if is_trainable(path[0] if path else "", path[-1] if path else "", value):
-                    trainable[key] = value
+                    trainable[path] = value
                 else:
-                    non_trainable[key] = value
+                    non_trainable[path] = value
 
-            return unflatten_dict(trainable, sep="/"), unflatten_dict(non_trainable, sep="/")
+            return unflatten_dict(trainable), unflatten_dict(non_trainable)
 
         trainable_params, non_trainable_params = partition_params(params)
 
@@ -148,7 +145,7 @@ class OnlineOptimizer(nn.Module):
             merged_params = merge_nested(trainable_params, non_trainable_params)
 
             # Compute model output
-            result = model_fn(merged_params, state, *args, **kwargs)
+            result, new_state = model_fn(merged_params, state, *args, **kwargs)
 
             # Handle different return types
             if isinstance(result, tuple):
@@ -165,10 +162,10 @@ class OnlineOptimizer(nn.Module):
             if self.regularize_loss is not None:
                 loss = self.regularize_loss(loss, merged_params, aux)
 
-            return loss, aux
+            return loss, (aux, new_state)
 
         # Compute gradients
-        (loss, aux), grads = jax.value_and_grad(loss_fn, has_aux=True)(trainable_params)
+        (loss, (aux, state)), grads = jax.value_and_grad(loss_fn, has_aux=True)(trainable_params)
 
         # Handle NaN gradients
         grads = tree_map(lambda x: jnp.nan_to_num(x), grads)
-- 
2.43.0


From d4caa573332d626dee9f66ae3ca68ad4ba1d9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 29/72] fix: flax FuncOptimizer optimises the parameters only
 and carries the state

---
 src/wax/flax/modules/func_optimizer.py | 33 +++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/wax/flax/modules/func_optimizer.py b/src/wax/flax/modules/func_optimizer.py
index 9106873..ede0646 100644
--- a/src/wax/flax/modules/func_optimizer.py
+++ b/src/wax/flax/modules/func_optimizer.py
@@ -77,11 +77,17 @@ class FuncOptimizer(nn.Module):
             if hasattr(self.fun, "init"):
                 # Function is a Flax module
                 rng = jax.random.PRNGKey(0)
-                init_params = self.fun.init(rng, *args, **kwargs)
-
-                # Partition parameters
-                train_params, non_train_params = self.update_params.partition_params(init_params)
+                init_vars = dict(self.fun.init(rng, *args, **kwargs))
+
+                # Partition parameters, the other collections are the state of the function
+                train_params, non_train_params = self.update_params.partition_params(
+                    init_vars.pop("params", {})
+                )
+                if train_params:
+                    train_params = {"params": train_params}
+                non_train_params = {"params": non_train_params}
                 trainable_params.value = train_params
+                self.variable("fun_state", "vars", lambda: init_vars)
 
                 # Store non-trainable parameters separately. The call is made for
                 # its side effect: it registers the collection on the module, which
@@ -94,6 +100,8 @@ class FuncOptimizer(nn.Module):
         # Get current parameters
         current_trainable = trainable_params.value
 
+        fun_state = self.variables.get("fun_state", {}).get("vars", {})
+
         # Define loss function for gradient computation
         def loss_fn(params):
             # Merge trainable and non-trainable parameters if needed
@@ -106,10 +114,14 @@ class FuncOptimizer(nn.Module):
             # Apply function
             if hasattr(self.fun, "apply"):
                 # Function is a Flax module
-                result = self.fun.apply(merged_params, *args, **kwargs)
+                variables = {**merged_params, **fun_state}
+                result, new_state = self.fun.apply(
+                    variables, *args, mutable=list(fun_state), **kwargs
+                )
             else:
                 # Function is a regular callable
                 result = self.fun(*args, **kwargs)
+                new_state = fun_state
 
             # Handle auxiliary data
             if self.has_aux:
@@ -123,11 +135,13 @@ class FuncOptimizer(nn.Module):
                 loss = result
                 aux = None
 
-            return loss, aux
+            return loss, (aux, new_state)
 
         # Compute gradients
         if current_trainable:
-            (loss, aux), grads = jax.value_and_grad(loss_fn, has_aux=True)(current_trainable)
+            (loss, (aux, fun_state)), grads = jax.value_and_grad(loss_fn, has_aux=True)(
+                current_trainable
+            )
 
             # Handle NaN/Inf gradients (fill with zeros)
             grads = tree_map(lambda x: self.fill_nan_inf(x), grads)
@@ -139,10 +153,13 @@ class FuncOptimizer(nn.Module):
             trainable_params.value = updated_params
         else:
             # No trainable parameters, just evaluate function
-            loss, aux = loss_fn({})
+            loss, (aux, fun_state) = loss_fn({})
             grads = {}
             opt_info = None
 
+        if fun_state:
+            self.put_variable("fun_state", "vars", fun_state)
+
         # Return function output and optimization info
         if self.has_aux:
             return (loss, aux), grads, opt_info
-- 
2.43.0


From 428edf9c78bd9602599e5090e65e8999af85b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 30/72] fix: flax online supervised learners train their model

---
 .../flax/modules/online_supervised_learner.py | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/online_supervised_learner.py b/src/wax/flax/modules/online_supervised_learner.py
index 38651a7..71cefb9 100644
--- a/src/wax/flax/modules/online_supervised_learner.py
+++ b/src/wax/flax/modules/online_supervised_learner.py
@@ -22,6 +22,18 @@ import jax.numpy as jnp
 from .func_optimizer import FuncOptimizer
 
 
+class ModelLoss(nn.Module):
+    """Loss of the predictions of a Flax model, with the predictions as auxiliary data."""
+
+    model: nn.Module  # Model module
+    loss_fn: Callable  # Loss function
+
+    @nn.compact
+    def __call__(self, x, y):
+        predictions = self.model(x)
+        return self.loss_fn(predictions, y), predictions
+
+
 class OnlineSupervisedLearner(nn.Module):
     """Flax-based online supervised learning module.
 
@@ -49,9 +61,16 @@ class OnlineSupervisedLearner(nn.Module):
             # Return loss and predictions as auxiliary data
             return loss, predictions
 
+        # The parameters of a Flax model are held by the function optimizer
+        model_loss: Callable = model_loss_fn
+        if isinstance(self.model, nn.Module):
+            model_loss = ModelLoss(
+                model=self.model.clone(parent=None), loss_fn=self.loss_fn, parent=None
+            )
+
         # Create function optimizer
         self.func_optimizer = FuncOptimizer(
-            fun=model_loss_fn,
+            fun=model_loss,
             opt=self.opt,
             has_aux=True,  # Returns predictions as auxiliary data
             params_predicate=self.params_predicate,
-- 
2.43.0


From aaa9f609659e0b86156c3a892a7360be9c9af49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 31/72] fix: haiku OptaxOptimizer passes the parameters to the
 optimiser

---
 src/wax/modules/optax_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/optax_optimizer.py b/src/wax/modules/optax_optimizer.py
index d342bf6..1917cc4 100644
--- a/src/wax/modules/optax_optimizer.py
+++ b/src/wax/modules/optax_optimizer.py
@@ -29,7 +29,7 @@ class OptaxOptimizer(hk.Module):
 
     def __call__(self, params, grads):
         opt_state = hk.get_state("opt_state", [], init=lambda *_: self.opt.init(params))
-        updates, opt_state = self.opt.update(grads, opt_state)
+        updates, opt_state = self.opt.update(grads, opt_state, params)
         params = optax.apply_updates(params, updates)
         hk.set_state("opt_state", opt_state)
         return params
-- 
2.43.0


From 4d48414368554c8da0d683f1950f8714a4a0586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 32/72] fix: FuncOptimizer optimises functions with a state

---
 src/wax/modules/func_optimizer.py | 3 +--
 src/wax/modules/update_params.py  | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wax/modules/func_optimizer.py b/src/wax/modules/func_optimizer.py
index 309b82d..fe18ba6 100644
--- a/src/wax/modules/func_optimizer.py
+++ b/src/wax/modules/func_optimizer.py
@@ -14,7 +14,6 @@
 from collections.abc import Callable
 
 import haiku as hk
-import jax
 import jax.numpy as jnp
 
 from wax.modules import FillNanInf
@@ -64,7 +63,7 @@ class FuncOptimizer(hk.Module):
             ),
         )
         func = UpdateParams(self.func, params_predicate=self.params_predicate)
-        results, grads = jax.value_and_grad(func, has_aux=self.has_aux)(
+        results, grads = hk.value_and_grad(func, has_aux=self.has_aux)(
             trainable_params, *args, **kwargs
         )
         if self.grads_fill_nan_inf:
diff --git a/src/wax/modules/update_params.py b/src/wax/modules/update_params.py
index d7397f2..869dd4a 100644
--- a/src/wax/modules/update_params.py
+++ b/src/wax/modules/update_params.py
@@ -71,8 +71,8 @@ def get_init_params(
     **kwargs,
 ):
     init_rng = hk.next_rng_key() if hk.running_init() else None
-    init, _ = hk.transform(func)
-    params = init(init_rng, *args, **kwargs)
+    init, _ = hk.transform_with_state(func)
+    params, _ = init(init_rng, *args, **kwargs)
 
     if params_predicate:
         trainable_params: Any
-- 
2.43.0


From 934d5717410be5fc1d94ee9c53f4d7cccb3057e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 33/72] fix: sherman_morrison supports matrices that are not
 symmetric

---
 src/wax/optim/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/optim/newton.py b/src/wax/optim/newton.py
index 0349d5f..cecfaec 100644
--- a/src/wax/optim/newton.py
+++ b/src/wax/optim/newton.py
@@ -54,7 +54,7 @@ class ScaleByNewtonState(NamedTuple):
 
 
 def sherman_morrison(A_inv, u, v):
-    den = 1.0 + (u @ A_inv) @ v
+    den = 1.0 + (v @ A_inv) @ u
     A_inv -= A_inv @ jnp.outer(u, v) @ A_inv / den
     return A_inv
 
-- 
2.43.0


From 82d374d3980334c4a07ede1c03d3c4aae8ffee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 34/72] fix: Callback objects can be passed to gym_unroll

---
 src/wax/gym/callbacks/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/gym/callbacks/callbacks.py b/src/wax/gym/callbacks/callbacks.py
index 0d6ea68..6f51ee4 100644
--- a/src/wax/gym/callbacks/callbacks.py
+++ b/src/wax/gym/callbacks/callbacks.py
@@ -127,7 +127,7 @@ def local_callbacks(callbacks=None):
     if global_callbacks:
         callbacks, Callback.active = Callback.active, set()
     try:
-        yield callbacks or ()
+        yield [c._callback if isinstance(c, Callback) else c for c in callbacks or ()]
     finally:
         if global_callbacks:
             Callback.active = callbacks
-- 
2.43.0


From 2cbf51fa43e25460e4e0b81686a221efa3c981d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 35/72] fix: leaving a callback context keeps the callbacks
 registered outside

---
 src/wax/gym/callbacks/callbacks.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/wax/gym/callbacks/callbacks.py b/src/wax/gym/callbacks/callbacks.py
index 6f51ee4..50891d5 100644
--- a/src/wax/gym/callbacks/callbacks.py
+++ b/src/wax/gym/callbacks/callbacks.py
@@ -95,12 +95,15 @@ class Callback:
         return tuple(getattr(self, i, None) for i in fields)
 
     def __enter__(self):
-        self._cm = add_callbacks(self)
-        self._cm.__enter__()
+        cm = add_callbacks(self)
+        cm.__enter__()
+        # the contexts entered before are kept, a callback can be nested in itself
+        self._cm = (cm, getattr(self, "_cm", None))
         return self
 
     def __exit__(self, *args):
-        self._cm.__exit__(*args)
+        cm, self._cm = self._cm
+        cm.__exit__(*args)
 
     def register(self):
         Callback.active.add(self._callback)
@@ -161,11 +164,11 @@ class add_callbacks:
 
     def __init__(self, *callbacks):
         self.callbacks = [normalize_callback(c) for c in callbacks]
-        Callback.active.update(self.callbacks)
 
     def __enter__(self):
-        return
+        # callbacks that are already active stay so after the context
+        self._added = set(self.callbacks) - Callback.active
+        Callback.active.update(self._added)
 
     def __exit__(self, type, value, traceback):
-        for c in self.callbacks:
-            Callback.active.discard(c)
+        Callback.active.difference_update(self._added)
-- 
2.43.0


From 4a9bdce27002993d6e1e2f74cc1afb36c2a5cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 36/72] fix: ProgressBar context returns the callback

---
 src/wax/gym/callbacks/progressbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/gym/callbacks/progressbar.py b/src/wax/gym/callbacks/progressbar.py
index 598c7c8..9630eba 100644
--- a/src/wax/gym/callbacks/progressbar.py
+++ b/src/wax/gym/callbacks/progressbar.py
@@ -22,7 +22,7 @@ class ProgressBar(Callback):
         self._pbar = None
 
     def __enter__(self):
-        super().__enter__()
+        return super().__enter__()
 
     def _on_train_start(self, env, agent, obs):
         if self._pbar is None:
-- 
2.43.0


From 2de9c4ea8d79b27ad5943db18888b1a4b513790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 37/72] fix: nested outputs of dataset streams can be formatted

---
 src/wax/format.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/format.py b/src/wax/format.py
index 88ad843..ec6ab66 100644
--- a/src/wax/format.py
+++ b/src/wax/format.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 """Format nested data structures to numpy/xarray/pandas containers."""
 
+from collections.abc import Mapping
 from functools import partial
 from typing import Any, TypeVar, cast
 
@@ -102,10 +103,9 @@ def format_dataset(ref_coords: DatasetCoordinates | None, data: Any, format_dims
         Nested data structure with same treedef as input data and leaves converted in DataArrays.
     """
     output = format_dataarray(ref_coords, data, format_dims)
-    try:
+    if isinstance(output, Mapping) and all(isinstance(v, xr.DataArray) for v in output.values()):
         return xr.Dataset(output)
-    except TypeError:
-        return output
+    return output
 
 
 def format_dataframe(
-- 
2.43.0


From 6cb8cef1e97ced08a3fa7dc6dbd4c87592c8950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 38/72] fix: streaming_scan accepts a random key and keeps
 supplied params or state

---
 src/wax/flax/core/streaming_transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 6583ab4..9447648 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -671,7 +671,10 @@ def streaming_scan(
             if params is None or state is None:
                 # Initialize if needed
                 sample_input = jax.tree_util.tree_map(lambda x: x[0], inputs)
-                params, state = streaming_fn.init(rng or jax.random.PRNGKey(0), sample_input)
+                init_rng = rng if rng is not None else jax.random.PRNGKey(0)
+                init_params, init_state = streaming_fn.init(init_rng, sample_input)
+                params = init_params if params is None else params
+                state = init_state if state is None else state
 
             # Create scan function that applies streaming function element by element
             def scan_body(carry_state, x):
-- 
2.43.0


From 87fdd4be73b65c67592bea2117794d04159871ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 39/72] fix: hierarchical, conditional and state machine
 patterns can be constructed

---
 src/wax/flax/core/streaming_transforms.py | 61 +++--------------------
 1 file changed, 8 insertions(+), 53 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 9447648..4cc10ce 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -72,21 +72,9 @@ class HierarchicalState(StreamingStatePattern):
     with proper state management and composition.
     """
 
+    # Flax modules are dataclasses: a custom __init__ would bypass their setup.
     modules: dict[str, nn.Module]
-    dependencies: dict[str, list[str]]  # Module dependency graph
-
-    def __init__(
-        self, modules: dict[str, nn.Module], dependencies: dict[str, list[str]] | None = None
-    ):
-        """Initialize hierarchical state manager.
-
-        Args:
-            modules: Dictionary mapping module names to module instances
-            dependencies: Optional dependency graph for execution order
-        """
-        super().__init__()
-        self.modules = modules
-        self.dependencies = dependencies or {}
+    dependencies: dict[str, list[str]] | None = None  # Module dependency graph
 
     def setup(self):
         """Register all modules for proper state management."""
@@ -115,7 +103,7 @@ class HierarchicalState(StreamingStatePattern):
         module_inputs = {}
 
         # Add dependencies from other modules
-        if module_name in self.dependencies:
+        if self.dependencies and module_name in self.dependencies:
             for dep in self.dependencies[module_name]:
                 if dep in computed_outputs:
                     module_inputs[dep] = computed_outputs[dep]
@@ -138,24 +126,9 @@ class ConditionalStateUpdate(StreamingStatePattern):
     their state when specific conditions are met.
     """
 
-    module: nn.Module
-    condition_fn: Callable[..., bool]
-    reset_on_condition: bool
-
-    def __init__(
-        self, module: nn.Module, condition_fn: Callable[..., bool], reset_on_condition: bool = False
-    ):
-        """Initialize conditional state updater.
-
-        Args:
-            module: The module to conditionally update
-            condition_fn: Function that determines when to update
-            reset_on_condition: Whether to reset state when condition is met
-        """
-        super().__init__()
-        self.module = module
-        self.condition_fn = condition_fn
-        self.reset_on_condition = reset_on_condition
+    module: nn.Module  # The module to conditionally update
+    condition_fn: Callable[..., bool]  # Determines when to update
+    reset_on_condition: bool = False  # Whether to reset state when condition is met
 
     def setup(self):
         """Register the wrapped module."""
@@ -190,28 +163,10 @@ class StreamingStateMachine(StreamingStatePattern):
     and transition between them based on inputs and conditions.
     """
 
-    states: dict[str, nn.Module]
-    transitions: dict[str, dict[str, Callable[..., bool]]]
+    states: dict[str, nn.Module]  # Mapping from state names to modules
+    transitions: dict[str, dict[str, Callable[..., bool]]]  # Transition conditions
     initial_state: str
 
-    def __init__(
-        self,
-        states: dict[str, nn.Module],
-        transitions: dict[str, dict[str, Callable[..., bool]]],
-        initial_state: str,
-    ):
-        """Initialize streaming state machine.
-
-        Args:
-            states: Dictionary mapping state names to modules
-            transitions: Transition conditions between states
-            initial_state: Name of the initial state
-        """
-        super().__init__()
-        self.states = states
-        self.transitions = transitions
-        self.initial_state = initial_state
-
     def setup(self):
         """Register all state modules."""
         for name, module in self.states.items():
-- 
2.43.0


From 56ec709701ddbbd6da274cb5452e77915d689cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 40/72] fix: modules can be used in conditional_update and
 state_machine functions

---
 src/wax/flax/core/streaming_transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 4cc10ce..3ce99c6 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -244,6 +244,7 @@ def conditional_update(
         def wrapper(*args, **kwargs):
             # Create a simple module that wraps the function
             class ConditionalModule(nn.Module):
+                @nn.compact
                 def __call__(self, *args, **kwargs):
                     return fn(*args, **kwargs)
 
@@ -283,6 +284,7 @@ def state_machine(
                 class StateModule(nn.Module):
                     fn: Callable = state_fn
 
+                    @nn.compact
                     def __call__(self, *args, **kwargs):
                         return self.fn(*args, **kwargs)
 
-- 
2.43.0


From 4d25b32a262bac6c9d3cb89e864462ac05c72472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 41/72] fix: hierarchical state executes modules after their
 dependencies

---
 src/wax/flax/core/streaming_transforms.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 3ce99c6..fcc27eb 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -85,13 +85,23 @@ class HierarchicalState(StreamingStatePattern):
         """Execute modules in dependency order."""
         outputs: dict[str, Any] = {}
 
-        # Simple topological execution - can be enhanced with proper sorting
-        for name, module in self.modules.items():
+        # Execute a module once its dependencies are computed
+        remaining = list(self.modules)
+        while remaining:
+            ready = [
+                name
+                for name in remaining
+                if not any(dep in remaining for dep in (self.dependencies or {}).get(name, []))
+            ]
+            # Circular dependency: fall back on the registration order
+            name = ready[0] if ready else remaining[0]
+            remaining.remove(name)
+
             # Get inputs for this module
             module_inputs = self._get_module_inputs(name, inputs, outputs)
 
             # Execute module
-            output = module(**module_inputs)
+            output = self.modules[name](**module_inputs)
             outputs[name] = output
 
         return outputs
-- 
2.43.0


From 8908cd7957502fc84f24f26b00ea80f17fc4439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 42/72] fix: down-sampled compressed memory is returned in the
 same order at every step

---
 src/wax/flax/modules/compressed_buffer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index b43effa..6dbf485 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -67,6 +67,12 @@ from .ewma import EWMA
 CompressionStrategy = Literal["ewma", "quantile", "downsample", "sketching", "none"]
 
 
+def _buffer_contents(buffer: Buffer) -> jnp.ndarray:
+    """Contents of a buffer in logical order (oldest first), without recording anything."""
+    state = buffer.variables["state"]
+    return jnp.roll(state["buffer"], -(state["write_idx"] % buffer.maxlen), axis=0)
+
+
 class CompressedBuffer(nn.Module):
     """Buffer with compression for memory-efficient long sequence storage.
 
@@ -252,10 +258,8 @@ class CompressedBuffer(nn.Module):
         if counter % self.downsample_factor == 0:
             downsampled_data = cast(jnp.ndarray, self.downsampled_buffer(x))
         else:
-            # Return current buffer state without update
-            downsampled_data = cast(
-                jnp.ndarray, self.downsampled_buffer.variables["state"]["buffer"]
-            )
+            # Return current buffer contents without update (oldest first)
+            downsampled_data = _buffer_contents(self.downsampled_buffer)
 
         self.sample_counter.value = counter + 1
         return downsampled_data
-- 
2.43.0


From 3cccd58b695aef099deef82b3d7204ce6bc1ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 43/72] fix: hierarchical buffer returns the contents of every
 level at every step

---
 src/wax/flax/modules/compressed_buffer.py | 30 +++++++++++++----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index 6dbf485..e7d7986 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -288,6 +288,19 @@ class CompressedBuffer(nn.Module):
         """Update without compression."""
         return cast(jnp.ndarray, self.uncompressed_buffer(x))
 
+    def contents(self) -> jnp.ndarray:
+        """Return the current compressed contents, as of the last update, without updating."""
+        if self.compression == "ewma":
+            return jnp.asarray(self.compressed_state.value)
+        elif self.compression == "quantile":
+            return self.quantile_estimates.value
+        elif self.compression == "downsample":
+            return _buffer_contents(self.downsampled_buffer)
+        elif self.compression == "sketching":
+            return jnp.min(self.sketch.value, axis=0)
+        else:
+            return _buffer_contents(self.uncompressed_buffer)
+
     def get_memory_usage(self) -> dict[str, int]:
         """Get estimated memory usage in bytes."""
         # Use compression params or defaults for calculations
@@ -401,25 +414,16 @@ class HierarchicalBuffer(nn.Module):
         if medium_counter % 5 == 0:  # Update every 5 steps
             medium_data = self.medium_buffer(x)
         else:
-            # Return current medium buffer state
-            # Step 0 always updates (0 % 5 == 0), so the stored state is an array
-            # by the time this branch is reached, never the initial Python scalar.
-            if hasattr(self.medium_buffer, "compressed_state"):
-                medium_data = cast(jnp.ndarray, self.medium_buffer.compressed_state.value)
-            else:
-                medium_data = jnp.array(0.0)
+            # Return current medium buffer contents
+            medium_data = self.medium_buffer.contents()
 
         # Update long buffer every many steps
         long_counter = self.long_update_counter.value
         if long_counter % 50 == 0:  # Update every 50 steps
             long_data = self.long_buffer(x)
         else:
-            # Return current long buffer state
-            # Same reasoning as the medium level: step 0 always updates.
-            if hasattr(self.long_buffer, "compressed_state"):
-                long_data = cast(jnp.ndarray, self.long_buffer.compressed_state.value)
-            else:
-                long_data = jnp.array(0.0)
+            # Return current long buffer contents
+            long_data = self.long_buffer.contents()
 
         # Update counters
         self.medium_update_counter.value = medium_counter + 1
-- 
2.43.0


From 3e8a37fe0f55a4e2c345cf9eb0a584ecb2c5d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 44/72] fix: quantile compression estimates count only recorded
 observations

---
 src/wax/flax/modules/compressed_buffer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index e7d7986..1b8f88d 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -147,7 +147,9 @@ class CompressedBuffer(nn.Module):
         self.percentiles = jnp.array(percentiles)
 
         # Buffer for computing quantiles
-        self.quantile_buffer = Buffer(maxlen=min(self.maxlen, 1000), fill_value=self.fill_value)
+        self.quantile_buffer = Buffer(
+            maxlen=min(self.maxlen, 1000), fill_value=self.fill_value, return_state=True
+        )
 
         # Store quantile estimates
         num_quantiles = len(percentiles)
@@ -220,8 +222,9 @@ class CompressedBuffer(nn.Module):
     def _quantile_update(self, x: jnp.ndarray) -> jnp.ndarray:
         """Update quantile-based compression."""
         # Add to quantile buffer
-        # The buffer is built with return_state left at its default (False).
-        buffered_values = cast(jnp.ndarray, self.quantile_buffer(x))
+        # Only the recorded values count, not the filling of the unused positions
+        buffered_values, buffer_state = self.quantile_buffer(x)
+        buffered_values = buffered_values[len(buffered_values) - int(buffer_state.len_buffer) :]
 
         # Update quantiles periodically
         update_count = self.update_count.value
-- 
2.43.0


From 0c7394b744d3e1a11185b28bf6f1ef515c79d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 45/72] fix: profiled pipelines record each call once

---
 src/wax/flax/debug/profiler.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index f229222..e238efe 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -480,6 +480,8 @@ class ProfilerContext:
         self.module_name = module_name
         self.start_time = None
         self.jit_compilation = False
+        self.input_data = None
+        self.output_data = None
 
     def __enter__(self):
         self.start_time = time.time()
@@ -491,6 +493,8 @@ class ProfilerContext:
             self.profiler.record_metrics(
                 module_name=self.module_name,
                 execution_time=execution_time,
+                input_data=self.input_data,
+                output_data=self.output_data,
                 jit_compilation=self.jit_compilation,
             )
 
@@ -498,6 +502,11 @@ class ProfilerContext:
         """Mark whether JIT compilation occurred during this step."""
         self.jit_compilation = occurred
 
+    def set_data(self, input_data: Any = None, output_data: Any = None):
+        """Set the input and output data of this step."""
+        self.input_data = input_data
+        self.output_data = output_data
+
 
 def profile_streaming(
     profiler: StreamingProfiler | None = None,
@@ -551,13 +560,8 @@ def profile_streaming(
                         # Track output data if detailed tracking enabled
                         output_data = result if enable_detailed_tracking else None
 
-                        # Record additional context
-                        ctx.profiler.record_metrics(
-                            module_name=actual_module_name,
-                            execution_time=0,  # Will be set by context manager
-                            input_data=input_data,
-                            output_data=output_data,
-                        )
+                        # The context manager records the step, with its execution time
+                        ctx.set_data(input_data=input_data, output_data=output_data)
 
                         return result
 
-- 
2.43.0


From 698dc7d028077fe123ca50d413c49065074c4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 46/72] fix: a profile result keeps its bottlenecks when the
 profiler is reset

---
 src/wax/flax/debug/profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index e238efe..aca621e 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -435,7 +435,7 @@ class StreamingProfiler:
                 memory_stats = {}
 
             # Collect bottlenecks
-            bottlenecks = getattr(self, "_bottlenecks", [])
+            bottlenecks = list(getattr(self, "_bottlenecks", []))
 
             # Generate recommendations
             recommendations = self.generate_optimization_recommendations()
-- 
2.43.0


From af2fa35df4cd6f2dc3c1b5e5cea722761ddcfc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 47/72] fix: numpy inputs and outputs are counted in profiled
 data sizes

---
 src/wax/flax/debug/profiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index aca621e..c2aef2d 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -43,6 +43,7 @@ from typing import Any
 
 import jax
 import jax.numpy as jnp
+import numpy as np
 import psutil
 
 
@@ -266,7 +267,7 @@ class StreamingProfiler:
         try:
             if data is None:
                 return 0
-            elif isinstance(data, jnp.ndarray):
+            elif isinstance(data, (jnp.ndarray, np.ndarray)):
                 return data.nbytes
             elif isinstance(data, (list, tuple)):
                 return sum(self._calculate_data_size(item) for item in data)
-- 
2.43.0


From 279007eef2ed0847f30ea96c6818fd5b53e3f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 48/72] fix: memory growth rate is measured per step whatever
 the snapshot interval

---
 src/wax/flax/debug/memory_tracker.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 2ec8a9d..650791b 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -390,7 +390,7 @@ class MemoryTracker:
 
         if len(memory_values) >= 3:
             # Simple linear regression to detect trend
-            x_values = list(range(len(memory_values)))
+            x_values = [s.step for s in recent_snapshots]
             n = len(memory_values)
 
             # Calculate slope (growth rate)
@@ -401,8 +401,7 @@ class MemoryTracker:
             denominator = sum((x_values[i] - x_mean) ** 2 for i in range(n))
 
             if denominator > 0:
-                slope = numerator / denominator  # MB per snapshot
-                growth_rate = slope * self.snapshot_interval  # MB per step
+                growth_rate = numerator / denominator  # MB per step
 
                 if growth_rate > self.leak_detection_threshold_mb / 100:  # Threshold per step
                     total_growth = memory_values[-1] - memory_values[0]
-- 
2.43.0


From 3f7224a745dc1423a463ddf016cc7106c7ddfd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 49/72] fix: debugger snapshots keep named tuples and copy
 numpy arrays

---
 src/wax/flax/debug/debugger.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 85de486..18c722c 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -41,6 +41,7 @@ from typing import Any, Protocol
 
 import jax
 import jax.numpy as jnp
+import numpy as np
 
 
 class DebugCondition(Protocol):
@@ -145,6 +146,10 @@ class DebugHook:
         try:
             if isinstance(data, jnp.ndarray):
                 return jnp.copy(data)
+            elif isinstance(data, np.ndarray):
+                return data.copy()
+            elif hasattr(data, "_fields"):  # named tuple
+                return type(data)(*(self._safe_copy(item) for item in data))
             elif isinstance(data, (list, tuple)):
                 return type(data)(self._safe_copy(item) for item in data)
             elif isinstance(data, dict):
@@ -327,6 +332,10 @@ class StreamingDebugger:
         try:
             if isinstance(tree, jnp.ndarray):
                 return jnp.copy(tree)
+            elif isinstance(tree, np.ndarray):
+                return tree.copy()
+            elif hasattr(tree, "_fields"):  # named tuple
+                return type(tree)(*(self._safe_copy_tree(item) for item in tree))
             elif isinstance(tree, dict):
                 return {k: self._safe_copy_tree(v) for k, v in tree.items()}
             elif isinstance(tree, (list, tuple)):
-- 
2.43.0


From a64b36b54fefa4b77a7fe7ee498b9dc2088c4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 50/72] fix: DOT exports escape names, labels and identifiers

---
 .../flax/visualization/computation_graph.py    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/wax/flax/visualization/computation_graph.py b/src/wax/flax/visualization/computation_graph.py
index 136e6e2..c694ed2 100644
--- a/src/wax/flax/visualization/computation_graph.py
+++ b/src/wax/flax/visualization/computation_graph.py
@@ -125,6 +125,11 @@ class PipelineEdge:
     weight: float = 1.0
 
 
+def _escape_dot(text: Any) -> str:
+    """Escape a text for use inside a double-quoted DOT string."""
+    return str(text).replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
+
+
 class ComputationGraphRenderer:
     """Renders computation graphs for WAX-ML streaming pipelines."""
 
@@ -516,7 +521,7 @@ class ComputationGraphRenderer:
         for node_id, node in self.nodes.items():
             label = self._create_node_label(node)
             lines.append(
-                f'  "{node_id}" [label="{label}", '
+                f'  "{_escape_dot(node_id)}" [label="{label}", '
                 f'color="{node.color}", style="{node.style}", '
                 f'shape="{node.shape}"];'
             )
@@ -527,14 +532,15 @@ class ComputationGraphRenderer:
         for edge in self.edges:
             edge_attrs = []
             if edge.label:
-                edge_attrs.append(f'label="{edge.label}"')
+                edge_attrs.append(f'label="{_escape_dot(edge.label)}"')
             if edge.color != "#424242":
                 edge_attrs.append(f'color="{edge.color}"')
             if edge.style != "solid":
                 edge_attrs.append(f'style="{edge.style}"')
 
             attrs_str = f" [{', '.join(edge_attrs)}]" if edge_attrs else ""
-            lines.append(f'  "{edge.source}" -> "{edge.target}"{attrs_str};')
+            source, target = _escape_dot(edge.source), _escape_dot(edge.target)
+            lines.append(f'  "{source}" -> "{target}"{attrs_str};')
 
         lines.append("}")
 
@@ -556,16 +562,16 @@ class ComputationGraphRenderer:
                 if isinstance(shape, tuple) and len(shape) > 0:
                     shape_strs.append(f"{key}: {shape}")
             if shape_strs:
-                label_parts.append("\\n" + "\\n".join(shape_strs))
+                label_parts.append("\n" + "\n".join(shape_strs))
 
         if self.include_parameters and node.parameters:
             param_strs = []
             for key, value in list(node.parameters.items())[:3]:  # Limit to first 3
                 param_strs.append(f"{key}={value}")
             if param_strs:
-                label_parts.append("\\n" + "\\n".join(param_strs))
+                label_parts.append("\n" + "\n".join(param_strs))
 
-        return "\\n".join(label_parts)
+        return "\\n".join(_escape_dot(part) for part in label_parts)
 
     def _generate_html_content(self) -> str:
         """Generate interactive HTML content."""
-- 
2.43.0


From df8eae688ebbea3fe3add15fb3f1ac9602740f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 51/72] fix: HTML graph exports escape names and shapes

---
 src/wax/flax/visualization/computation_graph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/wax/flax/visualization/computation_graph.py b/src/wax/flax/visualization/computation_graph.py
index c694ed2..3591c43 100644
--- a/src/wax/flax/visualization/computation_graph.py
+++ b/src/wax/flax/visualization/computation_graph.py
@@ -35,6 +35,7 @@ import tempfile
 import warnings
 from collections.abc import Callable
 from dataclasses import dataclass, field
+from html import escape
 from typing import Any, Protocol, cast
 
 import jax
@@ -607,13 +608,13 @@ class ComputationGraphRenderer:
         for node_id, node in self.nodes.items():
             html += f"""
         <div class="node" style="background-color: {node.color}20;">
-            <strong>{node.name}</strong> ({node.module_type})
-            <br>ID: {node_id}
+            <strong>{escape(str(node.name))}</strong> ({escape(str(node.module_type))})
+            <br>ID: {escape(str(node_id))}
 """
             if self.include_shapes and node.input_shapes:
-                html += f"<br>Input shapes: {node.input_shapes}"
+                html += f"<br>Input shapes: {escape(str(node.input_shapes))}"
             if self.include_parameters and node.parameters:
-                html += f"<br>Parameters: {node.parameters}"
+                html += f"<br>Parameters: {escape(str(node.parameters))}"
             html += "</div>"
 
         html += f"""
@@ -625,7 +626,8 @@ class ComputationGraphRenderer:
 
         for edge in self.edges:
             label = f" [{edge.label}]" if edge.label else ""
-            html += f'<div class="edge">{edge.source} → {edge.target}{label}</div>'
+            text = escape(f"{edge.source} → {edge.target}{label}")
+            html += f'<div class="edge">{text}</div>'
 
         html += """
     </div>
-- 
2.43.0


From 7b521ba96978f48848d7bdb3de5d8ad5d33eb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 52/72] fix: data flow tracker records only the tracked data
 types

---
 src/wax/flax/visualization/data_flow_visualizer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 26becc9..b2470ef 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -121,6 +121,9 @@ class DataFlowTracker:
             value: The actual data value
             metadata: Optional metadata about the data
         """
+        if not self._is_tracked(data_type):
+            return
+
         data_point = DataPoint(
             timestamp=time.time() - self.start_time,
             step=self.step_count,
@@ -134,6 +137,16 @@ class DataFlowTracker:
         self.data_history.append(data_point)
         self.module_data[module_name].append(data_point)
 
+    def _is_tracked(self, data_type: str) -> bool:
+        """Whether data points of this type are tracked."""
+        tracked = {
+            "input": self.track_inputs,
+            "output": self.track_outputs,
+            "state": self.track_states,
+            "gradient": self.track_gradients,
+        }
+        return tracked.get(data_type, True)
+
     def step(self) -> None:
         """Increment step counter."""
         self.step_count += 1
-- 
2.43.0


From 0bafdf4b9770e3b955d4cb30d83ce1a924604f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 53/72] fix: get_recent_data(0) returns no data

---
 src/wax/flax/visualization/data_flow_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index b2470ef..1a57f19 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -170,7 +170,7 @@ class DataFlowTracker:
 
     def get_recent_data(self, n_points: int = 100) -> list[DataPoint]:
         """Get the most recent n data points."""
-        return list(self.data_history)[-n_points:]
+        return list(self.data_history)[-n_points:] if n_points > 0 else []
 
     def clear_history(self) -> None:
         """Clear all tracking history."""
-- 
2.43.0


From 0d7ae17a18887b6975a147ec3b65cd89d0059ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 54/72] fix: text data flow plots accept one-element arrays

---
 src/wax/flax/visualization/data_flow_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 1a57f19..126e36b 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -372,7 +372,7 @@ class DataFlowVisualizer:
         """Format a value for text display."""
         if isinstance(value, jnp.ndarray):
             if value.size == 1:
-                return f"{float(value):.3f}"
+                return f"{value.item():.3f}"
             else:
                 return f"array{value.shape}"
         elif isinstance(value, int | float):
-- 
2.43.0


From e6fbc4d3dc06ca73c817ad2d9a9c5edafc56e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 55/72] fix: data flow plots show only the requested modules
 and data types

---
 .../visualization/data_flow_visualizer.py     | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 126e36b..ec918df 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -248,6 +248,18 @@ class DataFlowVisualizer:
         else:
             return self._create_text_plot(module_names, data_types, plot_type)
 
+    def _get_plotted_data(
+        self, n_points: int, module_names: list[str] | None, data_types: list[str] | None
+    ) -> list[DataPoint]:
+        """Get the most recent data points of the plotted modules and data types."""
+        data = [
+            dp
+            for dp in self.tracker.get_recent_data(len(self.tracker.data_history))
+            if (module_names is None or dp.module_name in module_names)
+            and (data_types is None or dp.data_type in data_types)
+        ]
+        return data[-n_points:] if n_points > 0 else []
+
     def _create_matplotlib_plot(
         self, module_names: list[str] | None, data_types: list[str] | None, plot_type: str
     ) -> Any:
@@ -295,7 +307,13 @@ class DataFlowVisualizer:
         }
 
         # Store plot references
-        self.active_plots["matplotlib"] = {"fig": fig, "axes": axes, "data": plot_data}
+        self.active_plots["matplotlib"] = {
+            "fig": fig,
+            "axes": axes,
+            "data": plot_data,
+            "module_names": module_names,
+            "data_types": data_types,
+        }
 
         return fig
 
@@ -338,7 +356,7 @@ class DataFlowVisualizer:
         if not self.tracker:
             return "No data tracker attached"
 
-        recent_data = self.tracker.get_recent_data(20)
+        recent_data = self._get_plotted_data(20, module_names, data_types)
 
         lines = ["WAX-ML Streaming Data Flow", "=" * 40, ""]
 
@@ -402,7 +420,9 @@ class DataFlowVisualizer:
         plot_info["data"]
 
         # Get recent data
-        recent_data = self.tracker.get_recent_data(self.max_points)
+        recent_data = self._get_plotted_data(
+            self.max_points, plot_info["module_names"], plot_info["data_types"]
+        )
 
         if not recent_data:
             return
-- 
2.43.0


From 41a96a8f4b569fa52095bd0469afa7fcd54f6c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 56/72] fix: graph hierarchy does not take a name prefix for a
 parent

---
 src/wax/flax/visualization/nested_graph_viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/nested_graph_viz.py b/src/wax/flax/visualization/nested_graph_viz.py
index a41c9fd..8d3aa30 100644
--- a/src/wax/flax/visualization/nested_graph_viz.py
+++ b/src/wax/flax/visualization/nested_graph_viz.py
@@ -249,7 +249,7 @@ class HierarchicalGraphAnalyzer:
             if (
                 other_id != node_id
                 and other_node.module_type == "Module"
-                and node_id.startswith(other_id)
+                and node_id.startswith(f"{other_id}.")
             ):
                 return other_id
 
-- 
2.43.0


From 999d7f689632ad5d6dc8c4a2539f68be3e91bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 57/72] fix: partitioned parameters keep module names
 containing a slash

---
 src/wax/flax/modules/update_params.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 41e4395..1a94a9a 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -87,16 +87,15 @@ class UpdateParams(nn.Module):
                 return {}, params
 
         # Flatten parameters for easier processing
-        flat_params = flatten_dict(params, sep="/")
+        flat_params = flatten_dict(params)
 
         trainable = {}
         non_trainable = {}
 
         for key, value in flat_params.items():
             # Parse the key to extract module and parameter names
-            path_parts = key.split("/")
-            module_name = path_parts[0] if len(path_parts) > 0 else ""
-            param_name = path_parts[-1] if len(path_parts) > 0 else ""
+            module_name = key[0]
+            param_name = key[-1]
 
             # Apply predicate to determine if parameter is trainable
             if is_trainable(module_name, param_name, value):
@@ -105,8 +104,8 @@ class UpdateParams(nn.Module):
                 non_trainable[key] = value
 
         # Unflatten the dictionaries
-        trainable_params = unflatten_dict(trainable, sep="/")
-        non_trainable_params = unflatten_dict(non_trainable, sep="/")
+        trainable_params = unflatten_dict(trainable)
+        non_trainable_params = unflatten_dict(non_trainable)
 
         return trainable_params, non_trainable_params
 
-- 
2.43.0


From 34620bae3595ef4f4be9b3c8954f7c2180c93973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 58/72] fix: merging keeps a single parameter array, even if
 zero

---
 src/wax/flax/modules/update_params.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 1a94a9a..495f243 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 """Flax-based UpdateParams module for parameter partitioning and management."""
 
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from typing import Any
 
 import flax.linen as nn
@@ -28,6 +28,11 @@ def merge_nested(params: dict, defaults: dict) -> dict:
     return unflatten_dict({**flatten_dict(defaults), **flatten_dict(params)})
 
 
+def _is_empty(params: Any) -> bool:
+    """Whether there are no parameters (a single parameter is not empty, even if zero)."""
+    return params is None or (isinstance(params, Mapping) and not params)
+
+
 class UpdateParams(nn.Module):
     """Flax-based module for separating trainable from non-trainable parameters.
 
@@ -119,13 +124,13 @@ class UpdateParams(nn.Module):
         Returns:
             Merged parameters
         """
-        if not trainable_params and not non_trainable_params:
+        if _is_empty(trainable_params) and _is_empty(non_trainable_params):
             return {}
 
-        if not trainable_params:
+        if _is_empty(trainable_params):
             return non_trainable_params
 
-        if not non_trainable_params:
+        if _is_empty(non_trainable_params):
             return trainable_params
 
         # For dictionaries, merge recursively
-- 
2.43.0


From cca1a44572cbec7e2edafa18c91f1ad7b2d0ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 59/72] fix: EWMA with linear adjustment has finite gradients
 after gaps

---
 src/wax/flax/modules/ewma.py | 4 +++-
 src/wax/modules/ewma.py      | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/modules/ewma.py b/src/wax/flax/modules/ewma.py
index 646b0ad..7e0ba3e 100644
--- a/src/wax/flax/modules/ewma.py
+++ b/src/wax/flax/modules/ewma.py
@@ -105,7 +105,9 @@ class EWMA(nn.Module):
         if self.adjust == "linear":
             # Linear adjustment for effective com
             old_wt_factor = jnp.where(
-                is_observation, 1.0, jnp.maximum(0.0, (current_old_wt - 1.0) / current_old_wt)
+                is_observation,
+                1.0,
+                jnp.maximum(0.0, (current_old_wt - 1.0) / jnp.maximum(current_old_wt, 1.0)),
             )
             updated_old_wt = jnp.minimum(current_old_wt, com)
         else:
diff --git a/src/wax/modules/ewma.py b/src/wax/modules/ewma.py
index 60f3a89..99c6440 100644
--- a/src/wax/modules/ewma.py
+++ b/src/wax/modules/ewma.py
@@ -156,7 +156,7 @@ class EWMA(hk.Module):
             # com_eff grow linearly when there is observation but
             # decrease linearly when there is nans.
             old_wt_factor = jnp.where(
-                is_observation, 1.0, jnp.maximum(0.0, (old_wt - 1.0) / old_wt)
+                is_observation, 1.0, jnp.maximum(0.0, (old_wt - 1.0) / jnp.maximum(old_wt, 1.0))
             )
             old_wt = jnp.minimum(old_wt, com)
         else:
-- 
2.43.0


From 14ef5454f605ac0601fc8fba2cab1dd0cc93c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 60/72] fix: EWMVar has finite gradients with missing values

---
 src/wax/flax/modules/ewmvar.py | 9 ++++++---
 src/wax/modules/ewmvar.py      | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/wax/flax/modules/ewmvar.py b/src/wax/flax/modules/ewmvar.py
index 5da9b89..6889923 100644
--- a/src/wax/flax/modules/ewmvar.py
+++ b/src/wax/flax/modules/ewmvar.py
@@ -87,17 +87,20 @@ class EWMVar(nn.Module):
         mask = jnp.logical_not(jnp.isnan(x))
         updated_nobs = jnp.where(mask, current_nobs + 1, current_nobs)
 
+        # entries without observation must not produce nans in gradient computations
+        count = jnp.maximum(updated_nobs, 1.0)
+
         # Alpha adjustment scheme
         if self.adjust == "linear":
             tscale = 1.0 / alpha
-            tscale = jnp.where(updated_nobs < tscale, updated_nobs, tscale)
+            tscale = jnp.where(count < tscale, count, tscale)
             alpha = jnp.where(tscale > 0, 1.0 / tscale, jnp.nan)
         elif self.adjust:
             # Exponential scheme (as in pandas)
-            alpha = alpha / (1.0 - (1.0 - alpha) ** updated_nobs)
+            alpha = alpha / (1.0 - (1.0 - alpha) ** count)
 
         # Incremental variance update using Finch's formula
-        diff = x - updated_mean
+        diff = jnp.where(mask, x - updated_mean, 0.0)
         incr = alpha * diff
 
         # Update state
diff --git a/src/wax/modules/ewmvar.py b/src/wax/modules/ewmvar.py
index c00ec1f..3ee636c 100644
--- a/src/wax/modules/ewmvar.py
+++ b/src/wax/modules/ewmvar.py
@@ -105,16 +105,19 @@ class EWMVar(hk.Module):
         mask = jnp.logical_not(jnp.isnan(x))
         nobs = jnp.where(mask, nobs + 1, nobs)
 
+        # entries without observation must not produce nans in gradient computations
+        count = jnp.maximum(nobs, 1.0)
+
         # alpha adjustement scheme
         if self.adjust == "linear":
             tscale = 1.0 / alpha
-            tscale = jnp.where(nobs < tscale, nobs, tscale)
+            tscale = jnp.where(count < tscale, count, tscale)
             alpha = jnp.where(tscale > 0, 1.0 / tscale, jnp.nan)
         elif self.adjust:
             # exponential scheme (as in pandas)
-            alpha = alpha / (1.0 - (1.0 - alpha) ** (nobs))
+            alpha = alpha / (1.0 - (1.0 - alpha) ** count)
 
-        diff = x - mean
+        diff = jnp.where(mask, x - mean, 0.0)
         incr = alpha * diff
 
         # update state
-- 
2.43.0


From a9315caa662160f72a7f228e39e05968cc4101a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 61/72] fix: EWMCov has finite gradients with missing values

---
 src/wax/flax/modules/ewmcov.py | 11 +++++++++--
 src/wax/modules/ewmcov.py      | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/modules/ewmcov.py b/src/wax/flax/modules/ewmcov.py
index 33d6fae..bd3129b 100644
--- a/src/wax/flax/modules/ewmcov.py
+++ b/src/wax/flax/modules/ewmcov.py
@@ -21,6 +21,13 @@ import jax.numpy as jnp
 from .ewma import EWMA
 
 
+def _outer(x, y):
+    """Outer product in which missing values do not produce nans in gradient computations."""
+    missing = jnp.ravel(jnp.isnan(x))[:, None] | jnp.ravel(jnp.isnan(y))[None, :]
+    product = jnp.outer(jnp.where(jnp.isnan(x), 0.0, x), jnp.where(jnp.isnan(y), 0.0, y))
+    return jnp.where(missing, jnp.nan, product)
+
+
 class EWMCov(nn.Module):
     """Flax-based exponentially weighted moving covariance module.
 
@@ -97,7 +104,7 @@ class EWMCov(nn.Module):
         y = jnp.asarray(y)
 
         # Compute outer product for XY term
-        xy = jnp.outer(x, y)
+        xy = _outer(x, y)
 
         # Compute exponentially weighted mean of XY
         mean_xy = self.mean_xy(xy)
@@ -111,7 +118,7 @@ class EWMCov(nn.Module):
             mean_y = self.mean_y(y)
 
             # Compute covariance: E[XY] - E[X]E[Y]
-            mean_x_mean_y = jnp.outer(mean_x, mean_y)
+            mean_x_mean_y = _outer(mean_x, mean_y)
             covariance = mean_xy - mean_x_mean_y
 
             return jnp.array(covariance)
diff --git a/src/wax/modules/ewmcov.py b/src/wax/modules/ewmcov.py
index 2fb6a05..bd51a00 100644
--- a/src/wax/modules/ewmcov.py
+++ b/src/wax/modules/ewmcov.py
@@ -19,6 +19,13 @@ import jax.numpy as jnp
 from wax.modules.ewma import EWMA
 
 
+def _outer(x, y):
+    """Outer product in which missing values do not produce nans in gradient computations."""
+    missing = jnp.ravel(jnp.isnan(x))[:, None] | jnp.ravel(jnp.isnan(y))[None, :]
+    product = jnp.outer(jnp.where(jnp.isnan(x), 0.0, x), jnp.where(jnp.isnan(y), 0.0, y))
+    return jnp.where(missing, jnp.nan, product)
+
+
 class EWMCov(hk.Module):
     """Compute exponentially weighted covariance.
 
@@ -128,7 +135,7 @@ class EWMCov(hk.Module):
             ignore_na=self.ignore_na,
             initial_value=self.initial_value,
             name="mean_xy",
-        )(jnp.outer(x, y))
+        )(_outer(x, y))
         if self.assume_centered:
             cov = mean_xy
         else:
@@ -148,5 +155,5 @@ class EWMCov(hk.Module):
                 initial_value=self.initial_value,
                 name="mean_y",
             )(y)
-            cov = mean_xy - jnp.outer(mean_x, mean_y)
+            cov = mean_xy - _outer(mean_x, mean_y)
         return cov
-- 
2.43.0


From 92d4caedb2d911b383ab8184accf77f2434edd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 62/72] fix: PctChange has finite gradients with missing values

---
 src/wax/flax/modules/pct_change.py | 5 ++++-
 src/wax/modules/pct_change.py      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/modules/pct_change.py b/src/wax/flax/modules/pct_change.py
index 541246e..631802f 100644
--- a/src/wax/flax/modules/pct_change.py
+++ b/src/wax/flax/modules/pct_change.py
@@ -59,7 +59,10 @@ class PctChange(nn.Module):
             previous_x = self.lag(x)
 
         # Compute percentage change: (current / previous) - 1.0
-        pct_change = x / previous_x - 1.0
+        # missing values must not produce nans in gradient computations
+        missing = jnp.isnan(x) | jnp.isnan(previous_x)
+        ratio = jnp.where(missing, 1.0, x) / jnp.where(missing, 1.0, previous_x)
+        pct_change = jnp.where(missing, jnp.nan, ratio - 1.0)
 
         # Handle special case: if current is NaN but previous is valid,
         # return 0.0 (pandas-compatible behavior when fillna_zero=True)
diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 11259fb..4f3ed48 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -55,7 +55,10 @@ class PctChange(hk.Module):
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
             previous_x = Lag(self.periods)(x)
-        pct_change = x / previous_x - 1.0
+        # missing values must not produce nans in gradient computations
+        missing = jnp.isnan(x) | jnp.isnan(previous_x)
+        ratio = jnp.where(missing, 1.0, x) / jnp.where(missing, 1.0, previous_x)
+        pct_change = jnp.where(missing, jnp.nan, ratio - 1.0)
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
         return pct_change
-- 
2.43.0


From f60669117a5cb59f0a41f00cf42fe16547bd42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 63/72] fix: UpdateOnEvent also gates modules built outside of
 the gated module

---
 src/wax/modules/update_on_event.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/wax/modules/update_on_event.py b/src/wax/modules/update_on_event.py
index c7d619c..bc3fedd 100644
--- a/src/wax/modules/update_on_event.py
+++ b/src/wax/modules/update_on_event.py
@@ -42,6 +42,8 @@ def set_params_or_state_dict(
         ):
             for name, value in bundle.items():
                 fq_name = their_module_name + "/" + name
+                if fq_name not in state_dict:
+                    continue
                 if which == "state":
                     value_dict = value._asdict()
                     value_dict["current"] = state_dict[fq_name]
@@ -50,6 +52,15 @@ def set_params_or_state_dict(
                     bundle[name] = state_dict[fq_name]
 
 
+def get_frame_state_dict():
+    """Returns the state of all the modules, with the same keys as `module.state_dict()`."""
+    return {
+        their_module_name + "/" + name: value.current
+        for their_module_name, bundle in base.current_frame().state.items()
+        for name, value in bundle.items()
+    }
+
+
 def set_state_from_dict(self, next_state_dict):
     """Set state keyed by name for this module and submodules."""
     if not base.frame_stack:
@@ -82,7 +93,7 @@ class UpdateOnEvent(hk.Module):
     def __call__(self, on_event, *args, **kwargs):
         # state_dict = self.state_dict()
 
-        prev_state_dict = self.module.state_dict()
+        known_state = get_frame_state_dict()
 
         output = self.module(*args, **kwargs)
 
@@ -95,7 +106,12 @@ class UpdateOnEvent(hk.Module):
             ),
         )
 
-        next_state_dict = self.module.state_dict() if prev_state_dict else {}
+        # The modules used by the module, including those that were built outside of it,
+        # are known once it has been called. A state which is created by this call is kept.
+        next_state_dict = {
+            name: value for name, value in self.module.state_dict().items() if name in known_state
+        }
+        prev_state_dict = {name: known_state[name] for name in next_state_dict}
 
         def true_fun(operand):
             output, next_state, _, _ = operand
-- 
2.43.0


From 31ca5e93ae2fa671bbd95bc46016275b20d506f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 64/72] fix: numba ewma starts columns that are not in the
 given state afresh

---
 src/wax/numba/ewma_numba.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 8494fc1..b00ded5 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -219,10 +219,12 @@ class NumbaExponentialMovingWindow:
         ):
             if state is not None:
                 state = state.reindex(obj.columns)
+                # columns that are not in the state start from the initial state
+                new = state["nobs"].isna()
                 state = EWMAState(
-                    mean=state["mean"].values,
-                    old_wt=state["old_wt"].values,
-                    nobs=state["nobs"].values,
+                    mean=state["mean"].mask(new, initial_value).values,
+                    old_wt=state["old_wt"].mask(new, 1.0).values,
+                    nobs=state["nobs"].mask(new, 0).astype(np.int64).values,
                 )
 
             res, state = ewma(
-- 
2.43.0


From 3bc10a7fbc3d36d45c63c043eabed02d9c7e5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 65/72] fix: streaming scans use a new random key at every step

---
 src/wax/flax/core/streaming_transforms.py | 27 +++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index fcc27eb..b021b2f 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -397,11 +397,15 @@ class StreamingTransform:
             Tuple of (outputs, final_state)
         """
 
-        def scan_fn(carry_state, x):
-            output, new_state = self.apply(params, carry_state, rng, x, **kwargs)
-            return new_state, output
-
-        final_state, outputs = jax.lax.scan(scan_fn, state, inputs)
+        def scan_fn(carry, x):
+            (carry_state, step_rng), key = carry, None
+            if step_rng is not None:
+                # a new key at every step
+                step_rng, key = jax.random.split(step_rng)
+            output, new_state = self.apply(params, carry_state, key, x, **kwargs)
+            return (new_state, step_rng), output
+
+        (final_state, _), outputs = jax.lax.scan(scan_fn, (state, rng), inputs)
         return outputs, final_state
 
 
@@ -644,9 +648,14 @@ def streaming_scan(
                 state = init_state if state is None else state
 
             # Create scan function that applies streaming function element by element
-            def scan_body(carry_state, x):
+            def scan_body(carry, x):
+                (carry_state, step_rng), key = carry, None
+                if step_rng is not None:
+                    # a new key at every step
+                    step_rng, key = jax.random.split(step_rng)
+
                 # Apply streaming function to single element
-                output, new_state = streaming_fn.apply(params, carry_state, rng, x)
+                output, new_state = streaming_fn.apply(params, carry_state, key, x)
 
                 # Check if we should reset state (JAX-compatible)
                 if reset_on is not None:
@@ -661,10 +670,10 @@ def streaming_scan(
                             state,
                         )
 
-                return new_state, output
+                return (new_state, step_rng), output
 
             # Apply scan
-            final_state, outputs = jax.lax.scan(scan_body, state, inputs)
+            (final_state, _), outputs = jax.lax.scan(scan_body, (state, rng), inputs)
             return outputs, final_state
 
         # Create a simple object with scan_apply method for compatibility
-- 
2.43.0


From 30c4cc16f22e7d79f7a41a493d94952e58bef869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 66/72] fix: DebugHook copies the arrays of the states it
 captures

---
 src/wax/flax/debug/debugger.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 18c722c..f8f2a9a 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -132,10 +132,10 @@ class DebugHook:
     def _deep_copy_state(self, state: Any) -> Any:
         """Create a deep copy of state for debugging."""
         try:
-            if hasattr(state, "copy"):
+            if isinstance(state, (dict, list, tuple)):
+                return self._safe_copy(state)
+            elif hasattr(state, "copy"):
                 return state.copy()
-            elif isinstance(state, dict):
-                return {k: self._safe_copy(v) for k, v in state.items()}
             else:
                 return state
         except Exception:
-- 
2.43.0


From 151e80ac5f439162d9858f5ef9043dcf86cb645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 67/72] fix: exponential moving statistics of integer data

---
 src/wax/flax/modules/ewma.py   | 3 +++
 src/wax/flax/modules/ewmcov.py | 6 ++++--
 src/wax/flax/modules/ewmvar.py | 4 ++++
 src/wax/modules/ewma.py        | 3 +++
 src/wax/modules/ewmcov.py      | 2 ++
 src/wax/modules/ewmvar.py      | 3 +++
 src/wax/utils.py               | 7 +++++++
 7 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/modules/ewma.py b/src/wax/flax/modules/ewma.py
index 7e0ba3e..3057c77 100644
--- a/src/wax/flax/modules/ewma.py
+++ b/src/wax/flax/modules/ewma.py
@@ -17,6 +17,8 @@ import flax.linen as nn
 import jax.numpy as jnp
 from flax.linen import initializers
 
+from wax.utils import as_floating
+
 
 class EWMA(nn.Module):
     """Flax-based Exponential Moving Average module.
@@ -64,6 +66,7 @@ class EWMA(nn.Module):
             info: Optional dictionary with additional variables (if return_info=True)
         """
         info = {}
+        x = as_floating(x)
 
         # Trainable parameter for com (log-space for numerical stability)
         logcom = self.param(
diff --git a/src/wax/flax/modules/ewmcov.py b/src/wax/flax/modules/ewmcov.py
index bd3129b..4b52cf0 100644
--- a/src/wax/flax/modules/ewmcov.py
+++ b/src/wax/flax/modules/ewmcov.py
@@ -18,6 +18,8 @@ import warnings
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import as_floating
+
 from .ewma import EWMA
 
 
@@ -100,8 +102,8 @@ class EWMCov(nn.Module):
             raise ValueError("Expected either (x, y) or ((x, y),)")
 
         # Ensure inputs are arrays (handle scalar inputs)
-        x = jnp.asarray(x)
-        y = jnp.asarray(y)
+        x = as_floating(x)
+        y = as_floating(y)
 
         # Compute outer product for XY term
         xy = _outer(x, y)
diff --git a/src/wax/flax/modules/ewmvar.py b/src/wax/flax/modules/ewmvar.py
index 6889923..30489fc 100644
--- a/src/wax/flax/modules/ewmvar.py
+++ b/src/wax/flax/modules/ewmvar.py
@@ -17,6 +17,8 @@ import flax.linen as nn
 import jax.numpy as jnp
 from flax.linen import initializers
 
+from wax.utils import as_floating
+
 
 class EWMVar(nn.Module):
     """Flax-based Exponentially Weighted Moving Variance module.
@@ -59,6 +61,8 @@ class EWMVar(nn.Module):
         Returns:
             Exponentially weighted variance
         """
+        x = as_floating(x)
+
         # Trainable parameter for com (log-space for numerical stability)
         logcom = self.param(
             "logcom",
diff --git a/src/wax/modules/ewma.py b/src/wax/modules/ewma.py
index 99c6440..67cedc6 100644
--- a/src/wax/modules/ewma.py
+++ b/src/wax/modules/ewma.py
@@ -18,6 +18,8 @@ from typing import cast
 import haiku as hk
 from jax import numpy as jnp
 
+from wax.utils import as_floating
+
 
 class EWMA(hk.Module):
     """Compute exponential moving average."""
@@ -114,6 +116,7 @@ class EWMA(hk.Module):
             info: A dictionnary with additionnal variables. It is returned if `return_info` is true.
         """
         info = {}
+        x = as_floating(x)
 
         logcom = hk.get_parameter(
             "logcom",
diff --git a/src/wax/modules/ewmcov.py b/src/wax/modules/ewmcov.py
index bd51a00..f164aae 100644
--- a/src/wax/modules/ewmcov.py
+++ b/src/wax/modules/ewmcov.py
@@ -17,6 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules.ewma import EWMA
+from wax.utils import as_floating
 
 
 def _outer(x, y):
@@ -128,6 +129,7 @@ class EWMCov(hk.Module):
                 stacklevel=2,
             )
             x, y = x
+        x, y = as_floating(x), as_floating(y)
         mean_xy = EWMA(
             com=self.com,
             min_periods=self.min_periods,
diff --git a/src/wax/modules/ewmvar.py b/src/wax/modules/ewmvar.py
index 3ee636c..cb28509 100644
--- a/src/wax/modules/ewmvar.py
+++ b/src/wax/modules/ewmvar.py
@@ -16,6 +16,8 @@
 import haiku as hk
 import jax.numpy as jnp
 
+from wax.utils import as_floating
+
 
 class EWMVar(hk.Module):
     """Compute exponentially weighted variance.
@@ -69,6 +71,7 @@ class EWMVar(hk.Module):
             mean := mean + incr
             variance := (1 - alpha) * (variance + diff * incr)
         """
+        x = as_floating(x)
 
         logcom = hk.get_parameter(
             "logcom",
diff --git a/src/wax/utils.py b/src/wax/utils.py
index c95ffac..73e07b2 100644
--- a/src/wax/utils.py
+++ b/src/wax/utils.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 """Some utils functions used in WAX-ML."""
 
+from jax import numpy as jnp
 from jax.tree_util import tree_flatten
 
 
@@ -30,3 +31,9 @@ def get_unique_dtype(current_values_):
     )
     current_dtype_ = current_dtypes_.pop()
     return current_dtype_
+
+
+def as_floating(x):
+    """Convert integers and booleans, which have no missing value, to floating point numbers."""
+    x = jnp.asarray(x)
+    return x if jnp.issubdtype(x.dtype, jnp.inexact) else x.astype(float)
-- 
2.43.0


From 79af42167d6201086f0b57daf2310b7b120e4e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 68/72] fix: rolling mean, difference and relative change of
 integer data

---
 src/wax/flax/modules/diff.py         | 4 +++-
 src/wax/flax/modules/pct_change.py   | 4 ++++
 src/wax/flax/modules/rolling_mean.py | 4 +++-
 src/wax/modules/diff.py              | 3 ++-
 src/wax/modules/pct_change.py        | 2 ++
 src/wax/modules/rolling_mean.py      | 3 ++-
 6 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/modules/diff.py b/src/wax/flax/modules/diff.py
index db6150e..28a8cae 100644
--- a/src/wax/flax/modules/diff.py
+++ b/src/wax/flax/modules/diff.py
@@ -18,6 +18,8 @@ from typing import cast
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import as_floating
+
 from .buffer import Buffer
 
 
@@ -49,7 +51,7 @@ class Diff(nn.Module):
         # Get buffer with current and previous values. The buffer is built with
         # return_state left at its default (False), so it hands back the array
         # alone rather than the (array, state) pair.
-        buffer = cast(jnp.ndarray, self.buffer(input))
+        buffer = cast(jnp.ndarray, self.buffer(as_floating(input)))
 
         # Compute difference: current (last) - lagged (first)
         diff = buffer[-1] - buffer[0]
diff --git a/src/wax/flax/modules/pct_change.py b/src/wax/flax/modules/pct_change.py
index 631802f..fa4e9fd 100644
--- a/src/wax/flax/modules/pct_change.py
+++ b/src/wax/flax/modules/pct_change.py
@@ -16,6 +16,8 @@
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import as_floating
+
 from .ffill import Ffill
 from .lag import Lag
 
@@ -49,6 +51,8 @@ class PctChange(nn.Module):
         Returns:
             Percentage change: (current / previous) - 1.0
         """
+        x = as_floating(x)
+
         # Get previous value, with optional forward-filling
         if self.fill_method in ["ffill", "pad"]:
             # Forward fill NaN values before computing lag
diff --git a/src/wax/flax/modules/rolling_mean.py b/src/wax/flax/modules/rolling_mean.py
index 1fad9f5..a3152aa 100644
--- a/src/wax/flax/modules/rolling_mean.py
+++ b/src/wax/flax/modules/rolling_mean.py
@@ -16,6 +16,8 @@
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import as_floating
+
 from .buffer import Buffer
 
 
@@ -45,7 +47,7 @@ class RollingMean(nn.Module):
             Rolling mean over the window, or NaN if insufficient data
         """
         # Get buffer with current window of values
-        buffer, attrs = self.buffer(x)
+        buffer, attrs = self.buffer(as_floating(x))
 
         # Sum valid (non-NaN) values in the buffer
         # Replace NaN with 0.0 for proper summation
diff --git a/src/wax/modules/diff.py b/src/wax/modules/diff.py
index 00767de..fafc776 100644
--- a/src/wax/modules/diff.py
+++ b/src/wax/modules/diff.py
@@ -16,6 +16,7 @@
 import haiku as hk
 
 from wax.modules.buffer import Buffer
+from wax.utils import as_floating
 
 
 class Diff(hk.Module):
@@ -37,6 +38,6 @@ class Diff(hk.Module):
         Args:
             x: input data
         """
-        buffer = Buffer(self.periods + 1)(x)
+        buffer = Buffer(self.periods + 1)(as_floating(x))
         diff = buffer[-1] - buffer[0]
         return diff
diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 4f3ed48..6877674 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -17,6 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules import Ffill, Lag
+from wax.utils import as_floating
 
 
 class PctChange(hk.Module):
@@ -51,6 +52,7 @@ class PctChange(hk.Module):
         assert periods == 1, "periods > 1 not implemented."
 
     def __call__(self, x):
+        x = as_floating(x)
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
diff --git a/src/wax/modules/rolling_mean.py b/src/wax/modules/rolling_mean.py
index bd501f0..3e7fae3 100644
--- a/src/wax/modules/rolling_mean.py
+++ b/src/wax/modules/rolling_mean.py
@@ -17,6 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules.buffer import Buffer
+from wax.utils import as_floating
 
 
 class RollingMean(hk.Module):
@@ -35,7 +36,7 @@ class RollingMean(hk.Module):
         self.min_periods = min_periods
 
     def __call__(self, x):
-        buffer, attrs = Buffer(self.horizon, return_state=True)(x)
+        buffer, attrs = Buffer(self.horizon, return_state=True)(as_floating(x))
         sum = jnp.where(jnp.logical_not(jnp.isnan(buffer)), buffer, 0.0).sum(axis=0)
         count = jnp.where(jnp.logical_not(jnp.isnan(buffer)), 1, 0).sum(axis=0)
         mean = jnp.where(count >= self.min_periods, sum / count, jnp.nan)
-- 
2.43.0


From 4d4e1bb0e04c515d17ba7d1e898b1c0681feaee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 69/72] fix: open, high, low and close of integer data

---
 src/wax/flax/modules/ohlc.py | 6 ++++--
 src/wax/modules/ohlc.py      | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/modules/ohlc.py b/src/wax/flax/modules/ohlc.py
index 3dd4796..1db1be6 100644
--- a/src/wax/flax/modules/ohlc.py
+++ b/src/wax/flax/modules/ohlc.py
@@ -18,6 +18,8 @@ from typing import NamedTuple
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import as_floating
+
 from .has_changed import HasChanged
 
 
@@ -52,8 +54,8 @@ class OHLC(nn.Module):
         Returns:
             OHLCData containing current OPEN, HIGH, LOW, CLOSE values
         """
-        # Ensure input is an array
-        input = jnp.asarray(input)
+        # Ensure input is an array of floating point numbers
+        input = as_floating(input)
         reset_on = jnp.asarray(reset_on)
 
         # Use reset signal directly
diff --git a/src/wax/modules/ohlc.py b/src/wax/modules/ohlc.py
index 9a8ada1..1a690a7 100644
--- a/src/wax/modules/ohlc.py
+++ b/src/wax/modules/ohlc.py
@@ -18,6 +18,8 @@ from typing import NamedTuple
 import haiku as hk
 import jax.numpy as jnp
 
+from wax.utils import as_floating
+
 
 class OHLCData(NamedTuple):
     OPEN: jnp.ndarray
@@ -33,6 +35,8 @@ class OHLC(hk.Module):
         super().__init__(name=name)
 
     def __call__(self, input: jnp.ndarray, *, reset_on: bool):
+        input = as_floating(input)
+
         def init_array(shape, dtype):
             return jnp.full(shape, fill_value=jnp.nan, dtype=dtype)
 
-- 
2.43.0


From 1ae143ad6aceb504f20610be6930a9628dad6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 70/72] fix: compiled exponential moving average of integer
 tables

---
 src/wax/numba/ewma_numba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index b00ded5..bd6b133 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -108,6 +108,8 @@ def ewma(
         return state
 
     def apply(values: np.ndarray, state: Optional[EWMAState] = None):
+        if not np.issubdtype(values.dtype, np.floating):
+            values = values.astype(float)
         is_1d = False
         if values.ndim == 1:
             values = values.reshape(-1, 1)
-- 
2.43.0


From d5906ffc6ff307b7bf9a84f7357834892a0d338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 71/72] fix: ARMA filter and adaptive forecaster of integer
 data

---
 src/wax/flax/modules/arma.py | 6 ++++--
 src/wax/modules/arma.py      | 2 ++
 src/wax/modules/snarimax.py  | 2 ++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/modules/arma.py b/src/wax/flax/modules/arma.py
index 400b196..e544f4c 100644
--- a/src/wax/flax/modules/arma.py
+++ b/src/wax/flax/modules/arma.py
@@ -18,6 +18,8 @@ from typing import cast
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import as_floating
+
 from .buffer import Buffer
 from .fill_nan_inf import FillNanInf
 
@@ -64,8 +66,8 @@ class ARMA(nn.Module):
         Returns:
             Filtered output from ARMA model
         """
-        # Ensure input is an array
-        eps = jnp.asarray(eps)
+        # Ensure input is an array of floating point numbers
+        eps = as_floating(eps)
 
         # Previous outputs (oldest first)
         y_history: nn.Variable[jnp.ndarray] = self.variable(
diff --git a/src/wax/modules/arma.py b/src/wax/modules/arma.py
index 492de8e..d2f2164 100644
--- a/src/wax/modules/arma.py
+++ b/src/wax/modules/arma.py
@@ -18,6 +18,7 @@ import jax.numpy as jnp
 
 from wax.modules.buffer import Buffer
 from wax.modules.fill_nan_inf import FillNanInf
+from wax.utils import as_floating
 
 
 class ARMA(hk.Module):
@@ -29,6 +30,7 @@ class ARMA(hk.Module):
         self.beta = beta
 
     def __call__(self, eps):
+        eps = as_floating(eps)
         eps_buffer = Buffer(len(self.beta) + 1, 0.0, name="eps_buffer")(eps)[:-1]
 
         y_buffer = hk.get_state(
diff --git a/src/wax/modules/snarimax.py b/src/wax/modules/snarimax.py
index fcb9b38..5754a5f 100644
--- a/src/wax/modules/snarimax.py
+++ b/src/wax/modules/snarimax.py
@@ -16,6 +16,7 @@ import jax.numpy as jnp
 
 from wax.modules.buffer import Buffer
 from wax.modules.fill_nan_inf import FillNanInf
+from wax.utils import as_floating
 
 
 class SNARIMAX(hk.Module):
@@ -90,6 +91,7 @@ class SNARIMAX(hk.Module):
             raise NotImplementedError("Options 'd', 'sp', 'sd', 'sq' are not yet implemented.")
 
     def __call__(self, y, X=None):
+        y = as_floating(y)
         yp = Buffer(self.p + 1, name="y_trues")(y)[1:]
 
         errp = hk.get_state(
-- 
2.43.0


From 2c810caabf344545469849bec18bde9fe833c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:33 +0000
Subject: [PATCH 72/72] fix: broadcast the masked mean along any axis in the
 Flax MaskStd

---
 src/wax/flax/modules/mask_std.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/wax/flax/modules/mask_std.py b/src/wax/flax/modules/mask_std.py
index 22c19c6..7ca7683 100644
--- a/src/wax/flax/modules/mask_std.py
+++ b/src/wax/flax/modules/mask_std.py
@@ -70,10 +70,7 @@ class MaskStd(nn.Module):
                 mean = x_masked.sum(axis=self.axis) / count
                 # Broadcast mean back to original shape for subtraction
                 if self.axis is not None:
-                    if self.axis == 0:
-                        mean = mean[None, ...] if x.ndim > 1 else mean
-                    elif self.axis == 1:
-                        mean = mean[..., None] if x.ndim > 1 else mean
+                    mean = jnp.expand_dims(mean, self.axis)
                 diff = x_masked - mean
 
                 # Re-mask the differences
-- 
2.43.0

