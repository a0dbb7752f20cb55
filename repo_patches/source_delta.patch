From f84cd9527994fd6125a0aa42d3a325e694a7fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 01/33] fix: clamp's partial w.r.t. the upper bound when the
 bounds are inverted

---
 dynamic_expressions/src/operator_enum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynamic_expressions/src/operator_enum.rs b/dynamic_expressions/src/operator_enum.rs
index a42f3f2..61cc762 100644
--- a/dynamic_expressions/src/operator_enum.rs
+++ b/dynamic_expressions/src/operator_enum.rs
@@ -628,7 +628,8 @@ pub mod builtin {
                     if x < lo { T::one() } else { T::zero() }
                 }
                 2 => {
-                    if x > hi { T::one() } else { T::zero() }
+                    // With inverted bounds (`lo > hi`) `eval` gives precedence to `lo`.
+                    if x > hi && !(x < lo) { T::one() } else { T::zero() }
                 }
                 _ => unreachable!(),
             }
-- 
2.43.0


From e4c76f1e7c25a745a6aa994ee1ec349d2a17c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 02/33] fix: pow's partials where x^0 and 0^y are constant

---
 dynamic_expressions/src/operator_enum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynamic_expressions/src/operator_enum.rs b/dynamic_expressions/src/operator_enum.rs
index 61cc762..506a912 100644
--- a/dynamic_expressions/src/operator_enum.rs
+++ b/dynamic_expressions/src/operator_enum.rs
@@ -473,7 +473,11 @@ pub mod builtin {
             let y = args[1];
             let f = x.powf(y);
             match idx {
+                // x^0 is constant in x, and 0^y is constant in y > 0, but the general formulas
+                // give 0 * inf there.
+                0 if y.is_zero() => T::zero(),
                 0 => y * x.powf(y - T::one()),
+                1 if x.is_zero() && y > T::zero() => T::zero(),
                 1 => f * x.ln(),
                 _ => unreachable!(),
             }
-- 
2.43.0


From f33ce6c983f2f168f457b11249da513820f971aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 03/33] fix: a zero tangent contributes nothing to a derivative
 even where the partial is not finite

---
 dynamic_expressions/src/evaluate.rs | 38 ++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index 4e53990..1db0c72 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -378,6 +378,20 @@ pub mod kernels {
         }
     }
 
+    /// One term of the chain rule. A zero tangent contributes nothing, even where the partial itself is
+    /// not finite: d(x^2)/dx exists for x < 0 although the partial of x^y with respect to y does not.
+    #[inline]
+    fn chain_term<T: Float, F, const A: usize>(partial: &F, vals: &[T; A], idx: usize, tangent: T) -> T
+    where
+        F: Fn(&[T; A], usize) -> T,
+    {
+        if tangent.is_zero() {
+            T::zero()
+        } else {
+            partial(vals, idx) * tangent
+        }
+    }
+
     #[inline]
     fn grad_unary_loop<T: Float, F, const A: usize>(out: &mut [T], x: ArgView<'_, T>, dx: ArgView<'_, T>, partial: F)
     where
@@ -388,7 +402,7 @@ pub mod kernels {
             (ArgView::Slice(x_s), ArgView::Slice(dx_s)) => {
                 for ((outg, &xv), &dxv) in out.iter_mut().zip_eq(x_s).zip_eq(dx_s) {
                     let vals = vals1(xv);
-                    *outg = partial(&vals, 0) * dxv;
+                    *outg = chain_term(&partial, &vals, 0, dxv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Const(dx_c)) => {
@@ -422,58 +436,58 @@ pub mod kernels {
                 let data = (x_s.iter().zip_eq(y_s)).zip_eq(dx_s.iter().zip_eq(dy_s));
                 for (outv, ((&xv, &yv), (&dxv, &dyv))) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dyv;
+                    *outv = chain_term(&partial, &vals, 0, dxv) + chain_term(&partial, &vals, 1, dyv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Slice(dx_s), ArgView::Const(dy_c)) => {
                 let data = x_s.iter().zip_eq(y_s).zip_eq(dx_s);
                 for (outv, ((&xv, &yv), &dxv)) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(&partial, &vals, 0, dxv) + chain_term(&partial, &vals, 1, dy_c);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Slice(dy_s)) => {
                 let data = x_s.iter().zip_eq(y_s).zip_eq(dy_s);
                 for (outv, ((&xv, &yv), &dyv)) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dyv;
+                    *outv = chain_term(&partial, &vals, 0, dx_c) + chain_term(&partial, &vals, 1, dyv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, (&xv, &yv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(y_s)) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(&partial, &vals, 0, dx_c) + chain_term(&partial, &vals, 1, dy_c);
                 }
             }
 
             (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Slice(dx_s), ArgView::Const(dy_c)) => {
                 for (outv, (&xv, &dxv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(dx_s)) {
                     let vals = vals2(xv, y_c);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(&partial, &vals, 0, dxv) + chain_term(&partial, &vals, 1, dy_c);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, &xv) in out.iter_mut().zip_eq(x_s) {
                     let vals = vals2(xv, y_c);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(&partial, &vals, 0, dx_c) + chain_term(&partial, &vals, 1, dy_c);
                 }
             }
 
             (ArgView::Const(x_c), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Slice(dy_s)) => {
                 for (outv, (&yv, &dyv)) in out.iter_mut().zip_eq(y_s.iter().zip_eq(dy_s)) {
                     let vals = vals2(x_c, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dyv;
+                    *outv = chain_term(&partial, &vals, 0, dx_c) + chain_term(&partial, &vals, 1, dyv);
                 }
             }
             (ArgView::Const(x_c), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, &yv) in out.iter_mut().zip_eq(y_s) {
                     let vals = vals2(x_c, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(&partial, &vals, 0, dx_c) + chain_term(&partial, &vals, 1, dy_c);
                 }
             }
             (ArgView::Const(x_c), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 let vals = vals2(x_c, y_c);
-                out.fill(partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c);
+                out.fill(chain_term(&partial, &vals, 0, dx_c) + chain_term(&partial, &vals, 1, dy_c));
             }
             _ => unreachable!("malformed expression"),
         }
@@ -627,7 +641,7 @@ pub mod kernels {
 
                 let mut dv_out = T::zero();
                 for (j, dvj) in dvals.iter().copied().enumerate() {
-                    dv_out += Op::partial(&vals, j) * dvj;
+                    dv_out += chain_term(&Op::partial, &vals, j, dvj);
                 }
                 *outd = dv_out;
 
@@ -717,7 +731,7 @@ pub mod kernels {
                     }
                     let mut g = T::zero();
                     for (j, ag) in ctx.arg_grads.iter().copied().enumerate() {
-                        g += Op::partial(&vals, j) * grad_at(ag, dir, row, ctx.n_rows);
+                        g += chain_term(&Op::partial, &vals, j, grad_at(ag, dir, row, ctx.n_rows));
                     }
                     *outg = g;
                 }
-- 
2.43.0


From e1ea3a689ad5624db0075fffbf7c7d5f85382a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 04/33] fix: simplify's subtraction patterns only apply to
 binary operators

Operator ids are per arity, so an operator of another arity sharing the id of '-' was taken for a subtraction below a subtraction.
---
 dynamic_expressions/src/simplify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynamic_expressions/src/simplify.rs b/dynamic_expressions/src/simplify.rs
index 35ef764..35b59f2 100644
--- a/dynamic_expressions/src/simplify.rs
+++ b/dynamic_expressions/src/simplify.rs
@@ -188,7 +188,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 1 / 2: left is const, right is (sub ...).
         if let Some(a_idx) = is_const(arena, left) {
-            if let Some((_r_arity, r_children)) = is_op(arena, right, op) {
+            if let Some((2, r_children)) = is_op(arena, right, op) {
                 let r0 = r_children[0];
                 let r1 = r_children[1];
                 let a_v = consts[a_idx as usize];
@@ -237,7 +237,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 3 / 4: right is const, left is (sub ...).
         if let Some(b_idx) = is_const(arena, right) {
-            if let Some((_l_arity, l_children)) = is_op(arena, left, op) {
+            if let Some((2, l_children)) = is_op(arena, left, op) {
                 let l0 = l_children[0];
                 let l1 = l_children[1];
                 let b_v = consts[b_idx as usize];
-- 
2.43.0


From 96eb7cab490e0a31a059d2d1bc241b76ab2e6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 05/33] fix: sr_ops! expands to a builder method that exists
 (nary)

---
 symbolic_regression/src/operators.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symbolic_regression/src/operators.rs b/symbolic_regression/src/operators.rs
index d33558a..d0bedf1 100644
--- a/symbolic_regression/src/operators.rs
+++ b/symbolic_regression/src/operators.rs
@@ -312,6 +312,16 @@ impl<Ops, const D: usize> OperatorsBuilder<Ops, D> {
         self.push_op::<Op>()
     }
 
+    pub fn nary<const A: u8, Op>(self) -> Self
+    where
+        Ops: HasOp<Op> + OperatorSet,
+        Op: dynamic_expressions::OpTag,
+    {
+        let op = <Ops as HasOp<Op>>::op_id();
+        assert_eq!(op.arity, A, "nary::<{A}>() requires arity={A} (got {})", op.arity);
+        self.push_op::<Op>()
+    }
+
     fn push_op<Op>(mut self) -> Self
     where
         Ops: HasOp<Op> + OperatorSet,
-- 
2.43.0


From 1843a51a2199b627d15f870e1376c8724ecedf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 06/33] fix: keep moving the frequency window until it is
 reached

---
 symbolic_regression/src/adaptive_parsimony.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic_regression/src/adaptive_parsimony.rs b/symbolic_regression/src/adaptive_parsimony.rs
index 9be35d7..087756d 100644
--- a/symbolic_regression/src/adaptive_parsimony.rs
+++ b/symbolic_regression/src/adaptive_parsimony.rs
@@ -68,7 +68,7 @@ impl RunningSearchStatistics {
             let total = amount * num_remaining;
             remaining -= total;
             loops += 1;
-            if loops > max_loops || total < 1e-6 {
+            if loops > max_loops || remaining < 1e-6 {
                 break;
             }
         }
-- 
2.43.0


From 8e5a5efdf9e051eefccb1e792d4fa497e9fea5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 07/33] fix: log-cosh loss of large residuals

---
 symbolic_regression/src/loss_functions.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/loss_functions.rs b/symbolic_regression/src/loss_functions.rs
index bcde517..e725a19 100644
--- a/symbolic_regression/src/loss_functions.rs
+++ b/symbolic_regression/src/loss_functions.rs
@@ -247,8 +247,13 @@ pub struct LogCoshLoss;
 
 impl<T: Float> PointwiseLoss<T> for LogCoshLoss {
     fn point_loss(&self, yhat: T, y: T) -> T {
-        let r = yhat - y;
-        r.cosh().ln()
+        let a = (yhat - y).abs();
+        if a < T::from(20.0).unwrap() {
+            a.cosh().ln()
+        } else {
+            // ln(cosh(a)) = a - ln(2) + ln(1 + exp(-2a)); cosh itself overflows for large residuals.
+            a - T::from(std::f64::consts::LN_2).unwrap()
+        }
     }
 
     fn point_dloss_dyhat(&self, yhat: T, y: T) -> T {
-- 
2.43.0


From a056e671fe6f65b059b328f6a92440599a288b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 08/33] fix: datasets accept targets and weights of any memory
 layout

---
 symbolic_regression/src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolic_regression/src/dataset.rs b/symbolic_regression/src/dataset.rs
index 527c57f..8157cd3 100644
--- a/symbolic_regression/src/dataset.rs
+++ b/symbolic_regression/src/dataset.rs
@@ -47,6 +47,8 @@ impl<T: Float> Dataset<T> {
         avg_y: Option<T>,
     ) -> Self {
         let x = x.as_standard_layout().to_owned();
+        let y = y.as_standard_layout().to_owned();
+        let weights = weights.map(|w| w.as_standard_layout().to_owned());
         let (n_features, n_rows) = x.dim();
         assert_eq!(y.len(), n_rows);
         if let Some(ref w) = weights {
-- 
2.43.0


From 99a1f2f7d3ff200ce6ed1be950b08c107d314364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 09/33] fix: tournament order when frequency-adjusted costs
 overflow

---
 symbolic_regression/src/selection.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/symbolic_regression/src/selection.rs b/symbolic_regression/src/selection.rs
index 8d79c46..4dbb3ef 100644
--- a/symbolic_regression/src/selection.rs
+++ b/symbolic_regression/src/selection.rs
@@ -1,5 +1,3 @@
-use std::cmp::Ordering;
-
 use fastrand::Rng;
 use num_traits::Float;
 
@@ -51,14 +49,24 @@ pub fn best_of_sample<T: Float, Ops, const D: usize>(
             } else {
                 0.0
             };
-            adjusted *= (options.adaptive_parsimony_scaling * freq).exp();
+            // The factor may overflow; a zero cost stays zero then (0 * inf is NaN).
+            if adjusted != 0.0 {
+                adjusted *= (options.adaptive_parsimony_scaling * freq).exp();
+            }
+        }
+        if adjusted.is_nan() {
+            adjusted = f64::INFINITY;
         }
         scored.push((adjusted, idx));
     }
 
     let place = sample_tournament_place(rng, scored.len(), options.tournament_selection_p);
     let place_index = (place - 1).min(scored.len() - 1);
-    scored.sort_by(|(a, _), (b, _)| a.partial_cmp(b).unwrap_or(Ordering::Greater));
+    // Adjusted costs that overflowed are ordered by the cost itself.
+    scored.sort_by(|(a, i), (b, j)| {
+        let cost = |idx: usize| pop.members[idx].cost.to_f64().unwrap_or(f64::INFINITY);
+        a.total_cmp(b).then_with(|| cost(*i).total_cmp(&cost(*j)))
+    });
     let chosen = scored[place_index].1;
     pop.members[chosen].clone()
 }
-- 
2.43.0


From 8805a83dcf9163e92b63fe7fe4f53cd5d32d4cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 10/33] hook: export evolution internals under the bench
 feature

---
 symbolic_regression/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/lib.rs b/symbolic_regression/src/lib.rs
index 0eaab57..86da8ea 100644
--- a/symbolic_regression/src/lib.rs
+++ b/symbolic_regression/src/lib.rs
@@ -50,10 +50,14 @@ pub use {
     adaptive_parsimony::RunningSearchStatistics,
     check_constraints::check_constraints,
     constant_optimization::{OptimizeConstantsCtx, optimize_constants},
-    mutate::{NextGenerationCtx, next_generation},
+    migration::{best_sub_pop, migrate_into},
+    mutate::{CrossoverCtx, NextGenerationCtx, crossover_generation, next_generation},
     pop_member::Evaluator,
     population::Population,
+    regularized_evolution::{RegEvolCtx, reg_evol_cycle},
     selection::best_of_sample,
+    single_iteration::{IterationCtx, optimize_and_simplify_population, s_r_cycle},
+    warmup::get_cur_maxsize,
 };
 
 #[cfg(test)]
-- 
2.43.0


From 68efd310297327eb3920b9ddd967784582675346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 11/33] fix: no crossover in a population of one member

---
 symbolic_regression/src/regularized_evolution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/regularized_evolution.rs b/symbolic_regression/src/regularized_evolution.rs
index 79962aa..e3857fa 100644
--- a/symbolic_regression/src/regularized_evolution.rs
+++ b/symbolic_regression/src/regularized_evolution.rs
@@ -33,7 +33,8 @@ where
     let n_evol_cycles = ((pop.len() as f64) / (ctx.options.tournament_selection_n as f64)).ceil() as usize;
 
     for _ in 0..n_evol_cycles {
-        if ctx.rng.f64() > ctx.options.crossover_probability {
+        // Crossover replaces two members, so a population of one can only mutate.
+        if pop.len() < 2 || ctx.rng.f64() > ctx.options.crossover_probability {
             let allstar = best_of_sample(ctx.rng, pop, ctx.stats, ctx.options);
             let (baby, accepted, tmp) = mutate::next_generation(
                 &allstar,
-- 
2.43.0


From ebf71ba331acbd0a742d1e13adef038c03296388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 12/33] fix: batched search sizes its evaluation buffers to the
 batch

---
 symbolic_regression/src/search_utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index f819038..21d0d74 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -101,6 +101,8 @@ impl<T: Float + AddAssign, Ops, const D: usize> PopState<T, Ops, D> {
         } else {
             full_dataset
         };
+        self.evaluator.ensure_n_rows(phase_dataset.n_rows);
+        self.grad_ctx.n_rows = phase_dataset.n_rows;
 
         let mut ctx = single_iteration::IterationCtx {
             rng: &mut self.rng,
-- 
2.43.0


From 832d439991851e5f42f615f1d0791ab2bc368515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 13/33] fix: size warm-up when maxsize is below three

---
 symbolic_regression/src/warmup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/warmup.rs b/symbolic_regression/src/warmup.rs
index 1e24daf..2873a69 100644
--- a/symbolic_regression/src/warmup.rs
+++ b/symbolic_regression/src/warmup.rs
@@ -12,7 +12,8 @@ pub fn get_cur_maxsize<T: Float, const D: usize>(
     let in_warmup = fraction_elapsed <= options.warmup_maxsize_by;
 
     if options.warmup_maxsize_by > 0.0 && in_warmup {
-        3 + (((options.maxsize - 3) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
+        let start = options.maxsize.min(3);
+        start + (((options.maxsize - start) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
     } else {
         options.maxsize
     }
-- 
2.43.0


From b231e0e3ba7f6bfd64a405a1cfeb7c1ca7a776a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 14/33] fix: the best candidate is the best seen

---
 symbolic_regression/src/search_utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 21d0d74..6630c8b 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -463,13 +463,13 @@ fn apply_task_result<T, Ops, const D: usize>(
     stats.update_from_population(st.pop.members.iter().map(|m| m.complexity));
     stats.move_window();
 
-    for m in res.best_seen.members() {
+    // Only an initial best may violate the constraints (when no initial member satisfied them).
+    let mut best_is_valid = check_constraints(&pools.best.expr, options, options.maxsize);
+    for m in res.best_seen.members().chain(&st.pop.members) {
         hall.consider(m, options, curmaxsize);
-    }
-    for m in &st.pop.members {
-        hall.consider(m, options, curmaxsize);
-        if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
+        if (m.loss < pools.best.loss || !best_is_valid) && check_constraints(&m.expr, options, curmaxsize) {
             pools.best = m.clone();
+            best_is_valid = true;
         }
     }
 
-- 
2.43.0


From 594514bb27a22f1b490cf25866481eb7ebfecd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 15/33] fix: rescore the best seen candidates on the full
 dataset

---
 symbolic_regression/src/search_utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 6630c8b..4e03064 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -419,7 +419,14 @@ where
 {
     let (evals1, best_seen) =
         pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, eval_dataset| {
-            single_iteration::s_r_cycle(pop, ctx, eval_dataset)
+            let (mut evals, mut best_seen) = single_iteration::s_r_cycle(pop, ctx, eval_dataset);
+            // Losses seen while evolving may be those of a batch; report those of the full dataset.
+            ctx.evaluator.ensure_n_rows(full_dataset.n_rows);
+            for m in best_seen.best_by_complexity.iter_mut().flatten() {
+                let _ = m.evaluate(&full_dataset, ctx.options, ctx.evaluator);
+                evals += 1.0;
+            }
+            (evals, best_seen)
         });
 
     let evals2 = pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, opt_dataset| {
-- 
2.43.0


From e80ca3b3d7bdaf21aa7092b03cf7d842d9a4fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 16/33] fix: members get fresh identifiers after optimisation
 and simplification

---
 symbolic_regression/src/single_iteration.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index dedb956..17bd955 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -8,7 +8,7 @@ use crate::constant_optimization::{OptimizeConstantsCtx, optimize_constants};
 use crate::dataset::TaggedDataset;
 use crate::hall_of_fame::HallOfFame;
 use crate::options::Options;
-use crate::pop_member::Evaluator;
+use crate::pop_member::{Evaluator, MemberId};
 use crate::population::Population;
 use crate::regularized_evolution::{RegEvolCtx, reg_evol_cycle};
 
@@ -114,6 +114,11 @@ where
     for m in &mut pop.members {
         let _ = m.evaluate(&ctx.full_dataset, ctx.options, ctx.evaluator);
         num_evals += 1.0;
+
+        // The expression may have changed: it is a new member, descending from the old one.
+        m.parent = Some(m.id);
+        m.id = MemberId(*ctx.next_id);
+        *ctx.next_id += 1;
     }
 
     num_evals
-- 
2.43.0


From cb95d8ee4b3e0be88b8fbc61503ed93e716453d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 17/33] fix: the parallel search cannot wait forever for a task
 nobody picked up

---
 symbolic_regression/src/search_utils.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 4e03064..1184646 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -208,7 +208,8 @@ where
         order_rng,
     };
 
-    rayon::scope(|scope| {
+    // In place: a caller outside of the pool must not occupy (and block) one of its workers.
+    rayon::in_place_scope(|scope| {
         run_scoped_search(scope, &mut state);
     });
     state.progress.finish();
@@ -555,7 +556,19 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
                 in_flight += 1;
             }
 
-            let res = result_rx.recv().expect("worker result channel closed early");
+            let res = loop {
+                match result_rx.recv_timeout(std::time::Duration::from_millis(10)) {
+                    Ok(res) => break res,
+                    // Rayon does not guarantee that another worker wakes up for a task in this
+                    // worker's queue: run it here rather than wait for it forever.
+                    Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
+                        let _ = rayon::yield_local();
+                    }
+                    Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
+                        panic!("worker result channel closed early")
+                    }
+                }
+            };
             in_flight -= 1;
             apply_task_result(
                 options,
-- 
2.43.0


From 45fcc5ad395a798ffbd46d314a7146a72e16ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 18/33] fix: the validation split always leaves a training row

---
 web/wasm/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index d8f6467..3e09836 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -651,7 +651,8 @@ fn make_split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> Was
     }
 
     let vf = validation_fraction.clamp(0.0, 0.9);
-    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows);
+    // Keep at least one training row.
+    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows - 1);
     if n_val == 0 {
         return WasmSplitIndices {
             train: (0..n_rows).collect(),
-- 
2.43.0


From fd84fae198f66493404f135696fce3b716bfcb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 19/33] fix: unweighted correlation uses the unweighted mean of
 the target

---
 web/wasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 3e09836..1c7af2e 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -507,6 +507,7 @@ fn r2_and_corr(yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> (f64, f64) {
     let r2 = if sst == 0.0 { 0.0 } else { 1.0 - (sse / sst) };
 
     // Unweighted Pearson correlation.
+    let y_mean = y.iter().sum::<f64>() / (y.len() as f64);
     let yh_mean = yhat.iter().sum::<f64>() / (yhat.len() as f64);
     let mut cov = 0.0;
     let mut vy = 0.0;
-- 
2.43.0


From 8eb40bf9ae7084b61590204363df1fb509d5c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 20/33] fix: a member none of the enabled mutations applies to
 stays as it is instead of panicking

---
 symbolic_regression/src/mutate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolic_regression/src/mutate.rs b/symbolic_regression/src/mutate.rs
index 0fa1a8e..d3dd4e5 100644
--- a/symbolic_regression/src/mutate.rs
+++ b/symbolic_regression/src/mutate.rs
@@ -134,6 +134,10 @@ pub fn sample_mutation(rng: &mut Rng, weights: &MutationWeights) -> MutationChoi
         (MutationChoice::Optimize, weights.optimize),
     ];
     let w: Vec<f64> = choices.iter().map(|(_, v)| *v).collect();
+    if w.iter().all(|&v| v == 0.0) {
+        // None of the enabled mutations applies to this expression.
+        return MutationChoice::DoNothing;
+    }
     let idx = weighted_index(rng, &w);
     choices[idx].0
 }
-- 
2.43.0


From a898ee8542ab39b05a1b07e3f74e83bc85433c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 21/33] fix: derivatives on zero rows panicked for leaves and
 operators of arity three and above

---
 dynamic_expressions/src/evaluate.rs            | 2 +-
 dynamic_expressions/src/evaluate_derivative.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index 1db0c72..1b4abf9 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -724,7 +724,7 @@ pub mod kernels {
                 *outv = Op::eval(&vals);
             }
 
-            for (dir, grad_dir) in ctx.out_grad.chunks_mut(ctx.n_rows).enumerate().take(ctx.n_dir) {
+            for (dir, grad_dir) in ctx.out_grad.chunks_mut(ctx.n_rows.max(1)).enumerate().take(ctx.n_dir) {
                 for (row, outg) in grad_dir.iter_mut().enumerate() {
                     for (v, view) in vals.iter_mut().zip_eq(arg_views) {
                         *v = view.get(row);
diff --git a/dynamic_expressions/src/evaluate_derivative.rs b/dynamic_expressions/src/evaluate_derivative.rs
index 3d1b21f..a0e41a8 100644
--- a/dynamic_expressions/src/evaluate_derivative.rs
+++ b/dynamic_expressions/src/evaluate_derivative.rs
@@ -331,7 +331,7 @@ where
             let end = start + n_rows;
             out_val.copy_from_slice(&x_data[start..end]);
             if variable {
-                for (dir, grad_dir) in out_grad.chunks_mut(n_rows).enumerate() {
+                for (dir, grad_dir) in out_grad.chunks_mut(n_rows.max(1)).enumerate() {
                     if dir == f as usize {
                         grad_dir.fill(T::one());
                     } else {
@@ -350,7 +350,7 @@ where
             }
             out_val.fill(v);
             if !variable {
-                for (dir, grad_dir) in out_grad.chunks_mut(n_rows).enumerate() {
+                for (dir, grad_dir) in out_grad.chunks_mut(n_rows.max(1)).enumerate() {
                     if dir == c as usize {
                         grad_dir.fill(T::one());
                     } else {
-- 
2.43.0


From d5ae5c66720f44fcff94646cb184c384f2f23752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 22/33] fix: the worker kept posting, or advanced a replaced
 search, after a pause, reset or new init

---
 web/ui/src/worker/srWorker.ts | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/web/ui/src/worker/srWorker.ts b/web/ui/src/worker/srWorker.ts
index 2c8dda4..0dd2233 100644
--- a/web/ui/src/worker/srWorker.ts
+++ b/web/ui/src/worker/srWorker.ts
@@ -5,6 +5,11 @@ import type { WorkerFromWorkerMsg, WorkerToWorkerMsg } from "./protocol";
 
 let search: WasmSearch | null = null;
 let running = false;
+// Identifies the loop that may advance the search: a loop that wakes up after a pause, reset or init
+// (or a later start) must not touch the search or report anything.
+let currentRun = 0;
+// Likewise for an initialisation that is waiting for the engine to load.
+let currentInit = 0;
 
 const SNAPSHOT_INTERVAL_MS = 200;
 const FRONT_INTERVAL_MS = 250;
@@ -27,10 +32,11 @@ async function runLoop(): Promise<void> {
   }
 
   running = true;
+  const run = ++currentRun;
   let lastSnap = 0;
   let lastFront = 0;
 
-  while (running && !search.is_finished()) {
+  while (!search.is_finished()) {
     search.step(STEP_CYCLES);
 
     const now = performance.now();
@@ -46,11 +52,9 @@ async function runLoop(): Promise<void> {
     }
 
     await sleep0();
-  }
 
-  if (!running) {
-    post({ type: "paused" });
-    return;
+    // Stopped in the meantime (the handler of that message has answered it), or superseded.
+    if (!running || run !== currentRun) return;
   }
 
   post({ type: "snapshot", snap: search.step(0) });
@@ -64,6 +68,7 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
   try {
     if (msg.type === "init") {
       running = false;
+      const request = ++currentInit;
       const wasmExports = await init();
       const sharedArrayBufferAvailable = typeof SharedArrayBuffer !== "undefined";
       const hasSharedMemory = sharedArrayBufferAvailable && wasmExports?.memory?.buffer instanceof SharedArrayBuffer;
@@ -79,6 +84,8 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
         // eslint-disable-next-line no-console
         console.warn("SharedArrayBuffer unavailable; running single-threaded.");
       }
+      // Reset or initialised again in the meantime.
+      if (request !== currentInit) return;
       search = new WasmSearch(msg.csvText, msg.options as any, msg.unary as any, msg.binary as any, msg.ternary as any);
       search.set_pareto_k(PARETO_K);
       const split = search.get_split_indices();
@@ -88,6 +95,7 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
 
     if (msg.type === "reset") {
       running = false;
+      currentInit++;
       search = null;
       post({ type: "reset_done" });
       return;
@@ -126,7 +134,10 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
         return;
       }
       if (!running) {
-        void runLoop();
+        runLoop().catch((err) => {
+          running = false;
+          post({ type: "error", error: String(err) });
+        });
       }
       return;
     }
-- 
2.43.0


From 275731f1b4880bde35dbe2d38610befd3c8dbb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 23/33] fix: messages of a search that is being replaced or
 reset no longer reach the page

---
 .../searchSolutions/useSearchController.ts    | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index 565829e..813b9b8 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -73,6 +73,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   const lastSnapTimeRef = useRef<number | null>(null);
   const lastEvalsRef = useRef<number | null>(null);
   const cpsEmaRef = useRef<number | null>(null);
+  const resettingRef = useRef(false);
 
   const snap = runtime.snapshot;
   const points = getParetoPoints(snap);
@@ -106,11 +107,15 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   useEffect(() => {
     const c = new Client();
     clientRef.current = c;
+    // Until the requested search is ready (or the reset is done), whatever else arrives was sent by the search
+    // that is being replaced.
+    const isStale = () => resettingRef.current || useSessionStore.getState().runtime.status === "initializing";
     c.setHandlers({
       onReady: (splitMaybe) => {
         setRuntime({ status: "ready", error: null, split: splitMaybe as WasmSplitIndices });
       },
       onSnapshot: (snapMaybe) => {
+        if (isStale()) return;
         const s = snapMaybe as SearchSnapshot;
         setSnapshot(s);
 
@@ -134,9 +139,11 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
         lastEvalsRef.current = s.total_evals;
       },
       onFrontUpdate: (frontMaybe) => {
+        if (isStale()) return;
         setFront(frontMaybe as EquationSummary[]);
       },
       onEvalResult: (requestId, resultMaybe) => {
+        if (isStale()) return;
         const r = resultMaybe as WasmEvalResult;
         const parts = requestId.split(":");
         if (parts.length !== 3) return;
@@ -144,9 +151,14 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
         const which = parts[2] as "train" | "val";
         setEvalResult(memberId, which, r);
       },
-      onDone: () => setRuntime({ status: "done" }),
-      onPaused: () => setRuntime({ status: "paused" }),
-      onResetDone: () =>
+      onDone: () => {
+        if (!isStale()) setRuntime({ status: "done" });
+      },
+      onPaused: () => {
+        if (!isStale()) setRuntime({ status: "paused" });
+      },
+      onResetDone: () => {
+        resettingRef.current = false;
         setRuntime({
           status: "idle",
           split: null,
@@ -157,7 +169,8 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
           selectedComplexity: null,
           evalByKey: {},
           error: null
-        }),
+        });
+      },
       onError: (err) => {
         // A common non-fatal case: we asked to evaluate an equation ID that has
         // just fallen out of the worker's internal cache between front updates.
@@ -169,7 +182,8 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
     return () => c.terminate();
   }, [Client, setEvalResult, setFront, setRuntime, setSnapshot]);
 
-  const canInit = Boolean(options) && unaryOps.length + binaryOps.length + ternaryOps.length > 0;
+  const canInit =
+    runtime.status !== "initializing" && Boolean(options) && unaryOps.length + binaryOps.length + ternaryOps.length > 0;
 
   const initSearch = () => {
     if (!clientRef.current || !options) return;
@@ -201,7 +215,11 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
     setRuntime({ status: "running" });
   };
   const pause = () => clientRef.current?.pause();
-  const reset = () => clientRef.current?.reset();
+  const reset = () => {
+    if (!clientRef.current) return;
+    resettingRef.current = true;
+    clientRef.current.reset();
+  };
 
   const selectEquation = (sel: { id: string; complexity: number }, opts?: { updateRequestedComplexity?: boolean }) => {
     const updateRequestedComplexity = opts?.updateRequestedComplexity ?? true;
-- 
2.43.0


From 2209ef397ec30e3dc42e341366faf31e4729e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 24/33] fix: results are shown against the table and column
 roles the search was built from

---
 .../searchSolutions/useSearchController.ts    | 31 +++++++++++++------
 web/ui/src/state/sessionStore.ts              |  2 +-
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index 813b9b8..f9cac9e 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -1,6 +1,7 @@
-import { useEffect, useMemo, useRef } from "react";
+import { useEffect, useMemo, useRef, useState } from "react";
 import { getParetoPoints, getSelectedSummary, useSessionStore } from "../../../state/sessionStore";
-import type { EquationSummary, SearchSnapshot, WasmEvalResult, WasmSplitIndices } from "../../../types/srTypes";
+import type { ParsedDataset } from "../../../state/sessionStore";
+import type { EquationSummary, SearchSnapshot, WasmEvalResult, WasmSearchOptions, WasmSplitIndices } from "../../../types/srTypes";
 import type { FitPlotMode } from "./types";
 
 type SrWorkerClientLike = {
@@ -57,6 +58,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   const parsed = useSessionStore((s) => s.parsed);
   const options = useSessionStore((s) => s.options);
   const csvText = useSessionStore((s) => s.csvText);
+  const parseCsv = useSessionStore((s) => s.parseCsv);
   const ensureParsedForRuntime = useSessionStore((s) => s.ensureParsedForRuntime);
   const unaryOps = useSessionStore((s) => s.unaryOps);
   const binaryOps = useSessionStore((s) => s.binaryOps);
@@ -80,12 +82,17 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   const best = snap?.best ?? null;
   const selectedSummary = getSelectedSummary(runtime.front, best, runtime.selectedId);
 
-  const yCol = options?.y_column ?? (parsed ? parsed.headers.length - 1 : 0);
-  const yAll = useMemo(() => (parsed ? buildYArray(parsed.rows, yCol) : []), [parsed, yCol]);
-  const xSelectedCol = options?.x_columns && options.x_columns.length > 0 ? options.x_columns[0] : null;
+  // The table and column roles the current search was built from: the data pane may have moved on since.
+  const [searched, setSearched] = useState<{ parsed: ParsedDataset | null; options: WasmSearchOptions } | null>(null);
+  const table = searched ? searched.parsed : parsed;
+  const roles = searched ? searched.options : options;
+
+  const yCol = roles?.y_column ?? (table ? table.headers.length - 1 : 0);
+  const yAll = useMemo(() => (table ? buildYArray(table.rows, yCol) : []), [table, yCol]);
+  const xSelectedCol = roles?.x_columns && roles.x_columns.length > 0 ? roles.x_columns[0] : null;
   const xAll = useMemo(
-    () => (parsed && xSelectedCol != null ? buildXArray(parsed.rows, xSelectedCol) : []),
-    [parsed, xSelectedCol]
+    () => (table && xSelectedCol != null ? buildXArray(table.rows, xSelectedCol) : []),
+    [table, xSelectedCol]
   );
   const split = runtime.split;
   // This is the *requested* complexity (what the user clicked). The displayed equation may
@@ -159,6 +166,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
       },
       onResetDone: () => {
         resettingRef.current = false;
+        setSearched(null);
         setRuntime({
           status: "idle",
           split: null,
@@ -187,6 +195,11 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
 
   const initSearch = () => {
     if (!clientRef.current || !options) return;
+    // The preview may be missing or show an earlier text than the one searched now.
+    useSessionStore.setState({ parsed: null });
+    parseCsv();
+    const now = useSessionStore.getState();
+    setSearched({ parsed: now.parsed, options: now.options ?? options });
     setRuntime({
       status: "initializing",
       error: null,
@@ -203,7 +216,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
     cpsEmaRef.current = null;
     clientRef.current.init({
       csvText,
-      options,
+      options: now.options ?? options,
       unary: unaryOps,
       binary: binaryOps,
       ternary: ternaryOps
@@ -273,7 +286,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   const trainYhat = evalTrain?.yhat ?? [];
   const valYhat = evalVal?.yhat ?? [];
 
-  const canCurve1d = Boolean(options?.x_columns && options.x_columns.length === 1 && parsed);
+  const canCurve1d = Boolean(roles?.x_columns && roles.x_columns.length === 1 && table);
   const effectiveFitMode: FitPlotMode = canCurve1d ? "curve_1d" : "parity";
 
   const trainXY = useMemo(() => {
diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index 1d32ad7..b3f1213 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -18,7 +18,7 @@ import type {
 
 export type TabKey = "data" | "configure" | "run";
 
-type ParsedDataset = {
+export type ParsedDataset = {
   headers: string[];
   rows: number[][];
 };
-- 
2.43.0


From 50f7467614cd411d7722e4a604687620b1af0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 25/33] fix: evaluation contexts compare the compiled
 expression itself, not a hash two expressions can share

---
 dynamic_expressions/src/evaluate.rs           | 22 ++++++----------
 .../src/evaluate_derivative.rs                | 26 ++++++++++---------
 2 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index 1b4abf9..4d80619 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -1,10 +1,10 @@
 use ndarray::{Array2, ArrayView2};
 use num_traits::Float;
 
-use crate::compile::{EvalPlan, build_node_hash, compile_plan};
+use crate::compile::{EvalPlan, compile_plan};
 use crate::dispatch::{EvalKernelCtx, GradRef, SrcRef};
 use crate::expression::PostfixExpr;
-use crate::node::Src;
+use crate::node::{PNode, Src};
 use crate::traits::{OpId, OperatorSet};
 
 #[derive(Copy, Clone, Debug)]
@@ -27,7 +27,7 @@ pub struct EvalContext<T: Float, const D: usize> {
     pub scratch: Option<Array2<T>>,
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
-    pub plan_nodes_len: usize,
+    pub plan_nodes: Vec<PNode>,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
 }
@@ -38,7 +38,7 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
             scratch: None,
             n_rows,
             plan: None,
-            plan_nodes_len: 0,
+            plan_nodes: Vec::new(),
             plan_n_consts: 0,
             plan_n_features: 0,
         }
@@ -47,7 +47,7 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
     pub fn setup<Ops>(&mut self, expr: &PostfixExpr<T, Ops, D>, x_columns: ArrayView2<'_, T>) {
         if self.needs_recompile(expr, x_columns) {
             self.plan = Some(compile_plan::<D>(&expr.nodes, x_columns.nrows(), expr.consts.len()));
-            self.plan_nodes_len = expr.nodes.len();
+            self.plan_nodes.clone_from(&expr.nodes);
             self.plan_n_consts = expr.consts.len();
             self.plan_n_features = x_columns.nrows();
         }
@@ -56,17 +56,11 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
     }
 
     fn needs_recompile<Ops>(&self, expr: &PostfixExpr<T, Ops, D>, x_columns: ArrayView2<'_, T>) -> bool {
-        if self.plan.is_none()
-            || self.plan_nodes_len != expr.nodes.len()
+        // The nodes themselves, not their hash: two expressions can share a hash.
+        self.plan.is_none()
             || self.plan_n_consts != expr.consts.len()
             || self.plan_n_features != x_columns.nrows()
-        {
-            return true;
-        }
-        let Some(plan) = &self.plan else {
-            return true;
-        };
-        plan.hash != build_node_hash(&expr.nodes)
+            || self.plan_nodes != expr.nodes
     }
 
     fn ensure_scratch(&mut self, n_slots: usize) {
diff --git a/dynamic_expressions/src/evaluate_derivative.rs b/dynamic_expressions/src/evaluate_derivative.rs
index a0e41a8..abd15e6 100644
--- a/dynamic_expressions/src/evaluate_derivative.rs
+++ b/dynamic_expressions/src/evaluate_derivative.rs
@@ -1,11 +1,11 @@
 use ndarray::{Array2, ArrayView2};
 use num_traits::Float;
 
-use crate::compile::{EvalPlan, build_node_hash, compile_plan};
+use crate::compile::{EvalPlan, compile_plan};
 use crate::dispatch::{DiffKernelCtx, GradKernelCtx, GradRef, SrcRef};
 use crate::evaluate::{EvalOptions, resolve_der_src, resolve_grad_src, resolve_val_src};
 use crate::expression::PostfixExpr;
-use crate::node::Src;
+use crate::node::{PNode, Src};
 use crate::traits::{OpId, OperatorSet};
 use crate::utils::ZipEq;
 
@@ -15,7 +15,7 @@ pub struct DiffContext<T: Float, const D: usize> {
     pub der_scratch: Array2<T>,
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
-    pub plan_nodes_len: usize,
+    pub plan_nodes: Vec<PNode>,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
 }
@@ -27,7 +27,7 @@ impl<T: Float, const D: usize> DiffContext<T, D> {
             der_scratch: Array2::zeros((0, 0)),
             n_rows,
             plan: None,
-            plan_nodes_len: 0,
+            plan_nodes: Vec::new(),
             plan_n_consts: 0,
             plan_n_features: 0,
         }
@@ -49,7 +49,7 @@ pub struct GradContext<T: Float, const D: usize> {
     pub grad_scratch: Array2<T>, // slot-major, each len n_dir*n_rows
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
-    pub plan_nodes_len: usize,
+    pub plan_nodes: Vec<PNode>,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
 }
@@ -61,7 +61,7 @@ impl<T: Float, const D: usize> GradContext<T, D> {
             grad_scratch: Array2::zeros((0, 0)),
             n_rows,
             plan: None,
-            plan_nodes_len: 0,
+            plan_nodes: Vec::new(),
             plan_n_consts: 0,
             plan_n_features: 0,
         }
@@ -114,13 +114,14 @@ where
     let n_rows = x_columns.ncols();
     let n_features = x_columns.nrows();
 
-    let needs_recompile = ctx.plan_nodes_len != expr.nodes.len()
+    // The nodes themselves, not their hash: two expressions can share a hash.
+    let needs_recompile = ctx.plan.is_none()
         || ctx.plan_n_consts != expr.consts.len()
         || ctx.plan_n_features != n_features
-        || ctx.plan.as_ref().is_none_or(|p| p.hash != build_node_hash(&expr.nodes));
+        || ctx.plan_nodes != expr.nodes;
     if needs_recompile {
         ctx.plan = Some(compile_plan::<D>(&expr.nodes, n_features, expr.consts.len()));
-        ctx.plan_nodes_len = expr.nodes.len();
+        ctx.plan_nodes.clone_from(&expr.nodes);
         ctx.plan_n_consts = expr.consts.len();
         ctx.plan_n_features = n_features;
     }
@@ -242,14 +243,15 @@ where
     let n_rows = x_columns.ncols();
     let n_dir = if variable { x_columns.nrows() } else { expr.consts.len() };
 
-    let needs_recompile = ctx.plan_nodes_len != expr.nodes.len()
+    // The nodes themselves, not their hash: two expressions can share a hash.
+    let needs_recompile = ctx.plan.is_none()
         || ctx.plan_n_consts != expr.consts.len()
         || ctx.plan_n_features != x_columns.nrows()
-        || ctx.plan.as_ref().is_none_or(|p| p.hash != build_node_hash(&expr.nodes));
+        || ctx.plan_nodes != expr.nodes;
 
     if needs_recompile {
         ctx.plan = Some(compile_plan::<D>(&expr.nodes, x_columns.nrows(), expr.consts.len()));
-        ctx.plan_nodes_len = expr.nodes.len();
+        ctx.plan_nodes.clone_from(&expr.nodes);
         ctx.plan_n_consts = expr.consts.len();
         ctx.plan_n_features = x_columns.nrows();
     }
-- 
2.43.0


From df9d2e25277f242b430246d5ccdff45ead2d93f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 26/33] fix: simplification no longer overflows the stack on
 deeply nested expressions

---
 dynamic_expressions/src/simplify.rs | 55 ++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/dynamic_expressions/src/simplify.rs b/dynamic_expressions/src/simplify.rs
index 35b59f2..28c25d4 100644
--- a/dynamic_expressions/src/simplify.rs
+++ b/dynamic_expressions/src/simplify.rs
@@ -62,6 +62,7 @@ fn append_const<T: Float>(consts: &mut Vec<T>, v: T) -> Option<u16> {
     Some(idx)
 }
 
+/// Rewrites one node whose children have already been combined; returns the id of the node that takes its place.
 fn combine_node<T: Float, const D: usize>(
     id: usize,
     arena: &mut Vec<ArenaNode<D>>,
@@ -69,20 +70,10 @@ fn combine_node<T: Float, const D: usize>(
     cfg: CombineCfg,
     changed: &mut bool,
 ) -> usize {
-    let ArenaNodeKind::Op {
-        arity,
-        op,
-        mut children,
-    } = arena[id].kind
-    else {
+    let ArenaNodeKind::Op { arity, op, children } = arena[id].kind else {
         return id;
     };
 
-    for cid in children.iter_mut().take(arity as usize) {
-        *cid = combine_node(*cid, arena, consts, cfg, changed);
-    }
-    arena[id].kind = ArenaNodeKind::Op { arity, op, children };
-
     if arity != 2 {
         return id;
     }
@@ -288,17 +279,41 @@ fn combine_node<T: Float, const D: usize>(
     id
 }
 
-fn emit_postfix<const D: usize>(id: usize, arena: &[ArenaNode<D>], out: &mut Vec<PNode>) {
-    match arena[id].kind {
-        ArenaNodeKind::Var(f) => out.push(PNode::Var { feature: f }),
-        ArenaNodeKind::Const(idx) => out.push(PNode::Const { idx }),
-        ArenaNodeKind::Op { arity, op, children } => {
-            for &cid in children.iter().take(arity as usize) {
-                emit_postfix(cid, arena, out);
+/// Combines the children before their parents (the order in which they lie in the arena), without recursion: an
+/// expression can be nested more deeply than the stack allows.
+fn combine_arena<T: Float, const D: usize>(
+    arena: &mut Vec<ArenaNode<D>>,
+    consts: &mut Vec<T>,
+    cfg: CombineCfg,
+    changed: &mut bool,
+) -> Vec<usize> {
+    let mut combined: Vec<usize> = Vec::with_capacity(arena.len());
+    for id in 0..arena.len() {
+        if let ArenaNodeKind::Op { arity, children, .. } = &mut arena[id].kind {
+            for cid in children.iter_mut().take(*arity as usize) {
+                *cid = combined[*cid];
+            }
+        }
+        combined.push(combine_node(id, arena, consts, cfg, changed));
+    }
+    combined
+}
+
+fn emit_postfix<const D: usize>(root: usize, arena: &[ArenaNode<D>], out: &mut Vec<PNode>) {
+    // Root first and last child before first child: postfix order backwards.
+    let start = out.len();
+    let mut todo = vec![root];
+    while let Some(id) = todo.pop() {
+        match arena[id].kind {
+            ArenaNodeKind::Var(f) => out.push(PNode::Var { feature: f }),
+            ArenaNodeKind::Const(idx) => out.push(PNode::Const { idx }),
+            ArenaNodeKind::Op { arity, op, children } => {
+                out.push(PNode::Op { arity, op });
+                todo.extend_from_slice(&children[..arity as usize]);
             }
-            out.push(PNode::Op { arity, op });
         }
     }
+    out[start..].reverse();
 }
 
 fn parse_postfix_to_arena<T, Ops, const D: usize>(expr: &PostfixExpr<T, Ops, D>) -> Option<(Vec<ArenaNode<D>>, usize)>
@@ -359,7 +374,7 @@ where
     };
 
     let mut changed = false;
-    let new_root = combine_node(root, &mut arena, &mut expr.consts, cfg, &mut changed);
+    let new_root = combine_arena(&mut arena, &mut expr.consts, cfg, &mut changed)[root];
     if !changed && new_root == root {
         return false;
     }
-- 
2.43.0


From 3b1a15741be83100c11cd90e1d588b24363f7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 27/33] fix: column summary of a table with repeated column
 names

Its rows were keyed by name, so rows of an earlier table stayed on the page.
---
 web/ui/src/app/panes/EnterData.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/ui/src/app/panes/EnterData.tsx b/web/ui/src/app/panes/EnterData.tsx
index 79dec2c..a3b5b18 100644
--- a/web/ui/src/app/panes/EnterData.tsx
+++ b/web/ui/src/app/panes/EnterData.tsx
@@ -353,8 +353,8 @@ export function EnterData(): React.ReactElement {
                 </tr>
               </thead>
               <tbody>
-                {columnSummary.map((s) => (
-                  <tr key={s.name}>
+                {columnSummary.map((s, j) => (
+                  <tr key={j}>
                     <td className="mono monoEllipsis" title={s.name}>
                       {s.name}
                     </td>
-- 
2.43.0


From 4857e521ff92b162847c3a2fd53610bfc2fc07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 28/33] fix: a file that takes longer to read no longer
 replaces the file chosen after it

---
 web/ui/src/app/panes/EnterData.tsx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/web/ui/src/app/panes/EnterData.tsx b/web/ui/src/app/panes/EnterData.tsx
index a3b5b18..932464e 100644
--- a/web/ui/src/app/panes/EnterData.tsx
+++ b/web/ui/src/app/panes/EnterData.tsx
@@ -3,6 +3,9 @@ import Plot from "react-plotly.js";
 import { useSessionStore } from "../../state/sessionStore";
 import { formatSci, plotLayoutBase, usePrefersDark } from "./searchSolutions/plotUtils";
 
+// Identifies the file chosen last: one that takes longer to read must not replace a later choice.
+let currentUpload = 0;
+
 function clampInt(v: number, lo: number, hi: number): number {
   return Math.max(lo, Math.min(hi, v | 0));
 }
@@ -88,7 +91,9 @@ export function EnterData(): React.ReactElement {
 
   const onFile = async (f: File | null) => {
     if (!f) return;
+    const upload = ++currentUpload;
     const text = await f.text();
+    if (upload !== currentUpload) return;
     setCsvText(text);
     // Convenience: auto-parse after upload to show preview immediately.
     parseCsv();
-- 
2.43.0


From 8235b0100d10bcdffdac9139541ef885dbae7e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 29/33] fix: column standard deviations are computed around the
 mean

The difference of the mean square and the squared mean cancels for columns whose mean is large.
---
 web/ui/src/app/panes/EnterData.tsx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/web/ui/src/app/panes/EnterData.tsx b/web/ui/src/app/panes/EnterData.tsx
index 932464e..98cc915 100644
--- a/web/ui/src/app/panes/EnterData.tsx
+++ b/web/ui/src/app/panes/EnterData.tsx
@@ -63,7 +63,6 @@ export function EnterData(): React.ReactElement {
     if (!parsed) return [] as { name: string; mean: number; std: number; min: number; max: number }[];
     const nCols2 = headers.length;
     const sum = Array.from({ length: nCols2 }, () => 0);
-    const sumsq = Array.from({ length: nCols2 }, () => 0);
     const min = Array.from({ length: nCols2 }, () => Infinity);
     const max = Array.from({ length: nCols2 }, () => -Infinity);
     const count = Array.from({ length: nCols2 }, () => 0);
@@ -73,18 +72,26 @@ export function EnterData(): React.ReactElement {
         const v = r[j];
         if (!Number.isFinite(v)) continue;
         sum[j] += v;
-        sumsq[j] += v * v;
         count[j] += 1;
         if (v < min[j]) min[j] = v;
         if (v > max[j]) max[j] = v;
       }
     }
 
+    const mean = sum.map((s, j) => (count[j]! > 0 ? s / count[j]! : NaN));
+    // Summed around the mean: the difference of the mean square and the squared mean would cancel.
+    const sumsq = Array.from({ length: nCols2 }, () => 0);
+    for (const r of rows) {
+      for (let j = 0; j < nCols2; j++) {
+        const v = r[j];
+        if (Number.isFinite(v)) sumsq[j] += (v - mean[j]!) ** 2;
+      }
+    }
+
     return headers.map((name, j) => {
       const n = count[j] ?? 0;
-      const mu = n > 0 ? sum[j]! / n : NaN;
-      const var0 = n > 0 ? sumsq[j]! / n - mu * mu : NaN;
-      const std = Number.isFinite(var0) && var0 >= 0 ? Math.sqrt(var0) : NaN;
+      const mu = mean[j]!;
+      const std = n > 0 ? Math.sqrt(sumsq[j]! / n) : NaN;
       return { name: name ?? `col_${j}`, mean: mu, std, min: min[j]!, max: max[j]! };
     });
   }, [parsed, headers, rows]);
-- 
2.43.0


From bfb1a36f58a6ff9a20bf52b5c4196add00826c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 30/33] fix: leaving the search tab no longer stops the search

The pane held the worker and its unmounting terminated it, while the page went on showing the search as running.
---
 web/ui/src/app/App.tsx                   | 3 ++-
 web/ui/src/app/panes/SearchSolutions.tsx | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/web/ui/src/app/App.tsx b/web/ui/src/app/App.tsx
index 4d0495c..2502542 100644
--- a/web/ui/src/app/App.tsx
+++ b/web/ui/src/app/App.tsx
@@ -57,7 +57,8 @@ export function App(): React.ReactElement {
         <div className="mainInner">
           {tab === "data" && <EnterData />}
           {tab === "configure" && <ModelingTask />}
-          {tab === "run" && <SearchSolutions />}
+          {/* Stays mounted: its worker holds the search. */}
+          <SearchSolutions visible={tab === "run"} />
         </div>
       </main>
     </div>
diff --git a/web/ui/src/app/panes/SearchSolutions.tsx b/web/ui/src/app/panes/SearchSolutions.tsx
index b063715..49f9493 100644
--- a/web/ui/src/app/panes/SearchSolutions.tsx
+++ b/web/ui/src/app/panes/SearchSolutions.tsx
@@ -9,12 +9,14 @@ import { SolutionsTableCard } from "./searchSolutions/SolutionsTableCard";
 import { usePrefersDark } from "./searchSolutions/plotUtils";
 import { useSearchController } from "./searchSolutions/useSearchController";
 
-export function SearchSolutions(): React.ReactElement {
+export function SearchSolutions({ visible = true }: { visible?: boolean }): React.ReactElement | null {
   const prefersDark = usePrefersDark();
   const c = useSearchController(SrWorkerClient);
   const options = useSessionStore((s) => s.options);
   const setOptionsPatch = useSessionStore((s) => s.setOptionsPatch);
 
+  if (!visible) return null;
+
   return (
     <div className="pane">
       <ControlsCard
-- 
2.43.0


From 3ef33067d92c12d677d76d1c1d3cfaedf18c0e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 31/33] fix: column roles picked for a wider table are dropped
 with it

They named columns the new table lacks, which no control of the page could undo.
---
 web/ui/src/state/sessionStore.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index b3f1213..beee073 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -192,11 +192,15 @@ export const useSessionStore = create<SessionState>((set, get) => ({
     const { headers, rows } = parsedRes.parsed;
     const nCols = rows[0]?.length ?? 0;
 
+    // Roles picked for an earlier table apply only if this one has all of those columns.
+    const picked = [options.y_column, options.weights_column, ...(options.x_columns ?? [])];
+    const roles = picked.every((c) => c == null || c < nCols) ? options : null;
+
     // Defaults: y is last col, X is all others.
-    const y = options.y_column ?? (nCols - 1);
-    const weights = options.weights_column ?? null;
+    const y = roles?.y_column ?? (nCols - 1);
+    const weights = roles?.weights_column ?? null;
     const x =
-      options.x_columns ??
+      roles?.x_columns ??
       Array.from({ length: nCols }, (_, i) => i).filter((i) => i !== y && i !== weights);
 
     set({
-- 
2.43.0


From 7ae8c5e342a0f05caaae4b223114d14107bc5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 32/33] fix: the page reads the rows of a table the way the
 engine does

Rows with nan or inf fields were left out of its targets but not of the predictions, which paired them with other rows;
blank, boolean, date and hexadecimal fields, which the engine refuses, became numbers.
---
 .../panes/searchSolutions/useSearchController.ts | 14 +++-----------
 web/ui/src/state/sessionStore.ts                 | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index f9cac9e..b4110bb 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -37,21 +37,13 @@ function buildXArray(rows: number[][], xCol: number): number[] {
   return rows.map((r) => r[xCol]);
 }
 
+// Entry k belongs to prediction k: a value that cannot be drawn keeps its place.
 function gatherByIndices(values: number[], idx: number[]): number[] {
-  return idx.map((i) => values[i]).filter((v) => Number.isFinite(v));
+  return idx.map((i) => values[i]);
 }
 
 function gatherPairsByIndices(x: number[], y: number[], idx: number[]): { x: number[]; y: number[] } {
-  const xo: number[] = [];
-  const yo: number[] = [];
-  for (const i of idx) {
-    const xv = x[i];
-    const yv = y[i];
-    if (!Number.isFinite(xv) || !Number.isFinite(yv)) continue;
-    xo.push(xv);
-    yo.push(yv);
-  }
-  return { x: xo, y: yo };
+  return { x: gatherByIndices(x, idx), y: gatherByIndices(y, idx) };
 }
 
 export function useSearchController(Client: { new (): SrWorkerClientLike }) {
diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index beee073..d1ede5d 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -77,6 +77,16 @@ function toggleInList(list: string[], value: string): string[] {
   return list.includes(value) ? list.filter((v) => v !== value) : [...list, value];
 }
 
+// The number the engine reads in a field, or null where it would refuse the table.
+function fieldValue(field: unknown): number | null {
+  if (typeof field === "number") return field;
+  if (typeof field !== "string") return null;
+  const text = field.trim().toLowerCase();
+  if (/^[+-]?nan$/.test(text)) return NaN;
+  if (/^[+-]?inf(inity)?$/.test(text)) return text.startsWith("-") ? -Infinity : Infinity;
+  return /^[+-]?[\d.]/.test(text) && !/^0[xob]/.test(text) && !Number.isNaN(Number(text)) ? Number(text) : null;
+}
+
 function parseCsvText(args: { csvText: string; hasHeaders: boolean }): { ok: true; parsed: ParsedDataset } | { ok: false; error: string } {
   const res = Papa.parse(args.csvText, {
     skipEmptyLines: true,
@@ -99,9 +109,9 @@ function parseCsvText(args: { csvText: string; hasHeaders: boolean }): { ok: tru
   const rows: number[][] = [];
   for (const r of dataRows) {
     if (!Array.isArray(r)) continue;
-    const row = r.map((v) => Number(v));
-    if (row.some((v) => !Number.isFinite(v))) continue;
-    rows.push(row);
+    const row = r.map(fieldValue);
+    if (row.some((v) => v === null)) continue;
+    rows.push(row as number[]);
   }
   if (rows.length === 0) return { ok: false, error: "no numeric data rows parsed" };
 
-- 
2.43.0


From 53325c5eac5739ac5134c3480f7bf0a2f1d8ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:33 +0000
Subject: [PATCH 33/33] hook: populations and size statistics of a search
 engine under the bench feature

---
 symbolic_regression/src/search_utils.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 1184646..4108602 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -317,6 +317,16 @@ where
         &self.options
     }
 
+    #[cfg(feature = "bench")]
+    pub fn populations(&self) -> impl Iterator<Item = &Population<T, Ops, D>> {
+        self.pools.pops.iter().flatten().map(|st| &st.pop)
+    }
+
+    #[cfg(feature = "bench")]
+    pub fn statistics(&self) -> &RunningSearchStatistics {
+        &self.stats
+    }
+
     pub fn step(&mut self, n_cycles: usize) -> usize {
         let mut completed = 0usize;
         for _ in 0..n_cycles {
-- 
2.43.0

