From 27a81a5e23312b71d7d3397999075d1cf64c9334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 01/32] fix: substitute all fixed variables before other
 presolve rules

A substitution queue entry for a variable that was no longer active made
presolve_step fall through to the slack rule while fixed variables were
still waiting, on which that rule asserts.
---
 src/data/linear_program/general_form/presolve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 76cebc2..742d1e4 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -126,7 +126,7 @@ where
     /// `Err` type.
     pub(super) fn presolve_step(&mut self) -> Result<Change, LinearProgramType<OF>> {
         // Rules that are guaranteed to make the problem smaller
-        if let Some(variable) = self.queues.substitution.pop() {
+        while let Some(variable) = self.queues.substitution.pop() {
             if self.counters.is_variable_still_active(variable) {
                 return self.presolve_fixed_variable(variable)
                     // always removes a variable
-- 
2.43.0


From 3317726c4d23a9be24d473f98af8b37ed1e78535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 02/32] fix: drop cached activity bounds when a variable leaves
 a constraint

Substituting a fixed variable or removing a slack changes the right-hand
side of the constraint, but the cached activity bounds kept the
contribution of the removed variable.
---
 .../linear_program/general_form/presolve/rule/fixed_variable.rs | 2 ++
 src/data/linear_program/general_form/presolve/rule/slack.rs     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
index 76ecda9..a39773b 100644
--- a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
+++ b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
@@ -41,6 +41,8 @@ where
         for constraint in rows_to_substitute {
             self.counters.variable[variable] -= 1;
             self.counters.constraint[constraint] -= 1;
+            // The cached activity bounds still include this variable.
+            self.activity_bounds[constraint] = (None, None);
             self.queue_constraint_by_counter(constraint)?;
         }
 
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 0c96df4..7ff5b48 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -170,6 +170,8 @@ where
 
         self.update_activity_queues_if_needed(constraint, bounds_is_none, coefficient_sign);
         self.counters.constraint[constraint] -= 1;
+        // The cached activity bounds still include this variable.
+        self.activity_bounds[constraint] = (None, None);
         self.queue_constraint_by_counter(constraint).map(|_| ())?;
 
         self.updates.change_b(constraint, change);
-- 
2.43.0


From 12e33c5b05a52ac4fccc88fa9e9b510fc7069271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 03/32] fix: handle range constraints whose lower activity
 bound equals the upper side

When the minimum activity of a range constraint is exactly its upper
side, the only feasible choice is to set all variables to the bound, as
for a <= constraint; presolve panicked instead.
---
 .../general_form/presolve/rule/domain_propagation.rs   | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index e481b45..408ba73 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -255,8 +255,8 @@ where
                 Err(LinearProgramType::Infeasible)
             },
 
-            // `l <= <a, x> (== <=) b == l`
-            (BoundDirection::Lower, Equal | Less, Ordering::Equal) |
+            // `l <= <a, x> (== =r= <=) b == l`
+            (BoundDirection::Lower, Equal | Range(_) | Less, Ordering::Equal) |
             // `u >= <a, x> (== >=) b = u`
             (BoundDirection::Upper, Equal | Greater, Ordering::Equal) => {
                 Ok(Some(ConstraintUpdate::SetVariablesToBound))
@@ -305,12 +305,6 @@ where
             (BoundDirection::Upper, Equal | Range(_) | Less | Greater, Ordering::Less) => {
                 Ok(None)
             },
-
-            // `l <= <a, x> =r= b == l`
-            (BoundDirection::Lower, Range(_), Ordering::Equal) => {
-                unreachable!("Would require the range to be zero, in which case it should be an \
-                              equality bound instead.")
-            },
         }
     }
 
-- 
2.43.0


From 2fc60db211461a02e7d75c335cdc6fc71f6ecf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 04/32] fix: keep derived variable bounds that were used to
 remove a constraint

Bounds derived from constraint activities were used to declare constraints
redundant but then discarded, even when the bound had been derived from
the very constraint that was removed, which relaxes the problem.
---
 .../presolve/rule/domain_propagation.rs       | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 408ba73..9b6a0f9 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -167,8 +167,13 @@ where
         let constraint_update = self.constraint_update(constraint, bound, direction)?;
         if let Some(change) = constraint_update {
             let (remove_constraint, apply_variable_part) = match change {
-                ConstraintUpdate::Remove => (true, true), // TODO(CORRECTNESS): Should the second value be changed to `false`?
+                ConstraintUpdate::Remove => {
+                    self.adopt_bounds_used(constraint, direction);
+
+                    (true, true) // TODO(CORRECTNESS): Should the second value be changed to `false`?
+                },
                 ConstraintUpdate::Replace(new_inequality, right_hand_side_shift) => {
+                    self.adopt_bounds_used(constraint, direction);
                     self.updates.constraints.insert(constraint, new_inequality.into());
                     self.updates.change_b(constraint, right_hand_side_shift);
 
@@ -213,6 +218,25 @@ where
         }
     }
 
+    /// Keep the variable bounds that were used to compute an activity bound.
+    ///
+    /// When a constraint is (partially) removed because of an activity bound, the derived variable
+    /// bounds that the activity bound is based on can no longer be discarded: they might have been
+    /// derived from the constraint that is removed.
+    ///
+    /// # Arguments
+    ///
+    /// * `constraint`: Index of the constraint that is changed.
+    /// * `direction`: Whether the activity lower- or upperbound was used.
+    fn adopt_bounds_used(&mut self, constraint: usize, direction: BoundDirection) {
+        for (variable, coefficient) in self.counters.iter_active_row(constraint) {
+            let variable_direction = direction * coefficient.non_zero_signum();
+            if let Some(bound_value) = self.updates.activity_bounds.remove(&(variable, variable_direction)) {
+                self.updates.bounds.insert((variable, variable_direction), bound_value);
+            }
+        }
+    }
+
     /// Whether a constraint can be removed.
     ///
     /// We start with `<a, x> (== =r= <= >=) b`, `l <= <a, x>` or `<a, x> <= u` and `a (= < >) b`
-- 
2.43.0


From 88443008edde7c107eb19603e4877d01ff21bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:53 +0000
Subject: [PATCH 05/32] fix: detect crossing variable bounds during presolve

Propagated bounds could cross the opposite bound, and input bounds could
be contradictory; both went unnoticed (or failed an assertion later)
instead of being reported as infeasible.
---
 .../presolve/rule/domain_propagation.rs       | 24 +++++++++++++------
 .../general_form/presolve/updates.rs          |  8 +++----
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 9b6a0f9..403a1ef 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -51,7 +51,7 @@ where
 
         match counter {
             0 => self.for_entire_constraint(constraint, direction),
-            1 => Ok(self.create_variable_bound(constraint, direction)),
+            1 => self.create_variable_bound(constraint, direction),
             _ => unreachable!("Constraint should not be added to the activity queue before the counter is 0 or 1."),
         }
     }
@@ -99,7 +99,7 @@ where
                     &activity_bound,
                     direction,
                     &mut most_meaningful_change,
-                );
+                )?;
             }
         }
 
@@ -356,7 +356,7 @@ where
         activity_bound: &OF,
         activity_direction: BoundDirection,
         made_change: &mut Change,
-    ) {
+    ) -> Result<(), LinearProgramType<OF>> {
         let targets = self.counters.iter_active_row(constraint)
             .map(|(i, v)| (i, v.clone())) // TODO(ARCHITECTURE): Avoid this clone
             .collect::<Vec<_>>();
@@ -375,6 +375,9 @@ where
                 new_variable_bound_direction,
                 new_variable_bound_value.clone(),
             );
+            if self.updates.variable_feasible_value(variable).is_none() {
+                return Err(LinearProgramType::Infeasible);
+            }
 
             match change {
                 BoundChange::None => {},
@@ -390,6 +393,8 @@ where
                 },
             }
         }
+
+        Ok(())
     }
 
     /// Apply domain propagation through activation bounds for a constraint where all but one of the
@@ -403,7 +408,7 @@ where
         &mut self,
         constraint: usize,
         activity_direction: BoundDirection,
-    ) -> Change {
+    ) -> Result<Change, LinearProgramType<OF>> {
         // We should be exactly one variable bound away from being able to compute an activity
         // bound, otherwise, a different rule should be applied.
         debug_assert_eq!(
@@ -415,7 +420,7 @@ where
         );
 
         let right_hand_side = match self.can_variable_rule_be_applied(constraint, activity_direction) {
-            None => return Change::None,
+            None => return Ok(Change::None),
             Some(value) => value,
         };
 
@@ -436,7 +441,12 @@ where
         // Compute the variable bound and apply the change.
         let value = (right_hand_side - total_activity) / target_coefficient;
         let bound_direction = !activity_direction * target_coefficient.non_zero_signum();
-        match self.updates.update_activity_variable_bound(target_column, bound_direction, value) {
+        let change = self.updates.update_activity_variable_bound(target_column, bound_direction, value);
+        if self.updates.variable_feasible_value(target_column).is_none() {
+            return Err(LinearProgramType::Infeasible);
+        }
+
+        Ok(match change {
             BoundChange::None => Change::None,
             BoundChange::NewBound => {
                 self.after_bound_change(target_column, bound_direction, None);
@@ -446,7 +456,7 @@ where
                 self.after_bound_change(target_column, bound_direction, Some(shift));
                 Change::NotMeaningful
             },
-        }
+        })
     }
 
     fn can_variable_rule_be_applied(&self, constraint: usize, activity_direction: BoundDirection) -> Option<OF> {
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 90bf812..bdf6397 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -107,15 +107,15 @@ where
         general_form: &'a GeneralForm<OF>,
         counters: &Counters<OF>,
     ) -> Result<Self, LinearProgramType<OF>> {
+        if !general_form.variables.iter().all(|variable| variable.has_feasible_value()) {
+            return Err(LinearProgramType::Infeasible);
+        }
+
         let mut fixed_cost = OF::zero();
         let removed_variables = counters.variable.iter().enumerate()
             .filter(|&(_, &count)| count == 0)
             .map(|(j, _)| {
                 let variable = &general_form.variables[j];
-                // There should be a feasible value, otherwise, reading of the problem should have
-                // been ended due to a trivial infeasibility.
-                debug_assert!(variable.has_feasible_value());
-
                 let value = if variable.cost.is_zero() {
                     variable.get_feasible_value().unwrap()
                 } else {
-- 
2.43.0


From e866e893191a14b06ca8c9c7b9ea0d7793d4ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:00 +0000
Subject: [PATCH 06/32] fix: make the slack rule of presolve respect the bounds
 of the slack

For range constraints with a one-sided slack the lower side was not used
as the new right-hand side, and the reconstructed value of a slack in a
range constraint or in a removed inequality could violate its own bounds.
---
 src/data/linear_program/general_form/mod.rs   | 77 +++++++++++++++++--
 .../general_form/presolve/rule/slack.rs       | 31 ++++++--
 .../general_form/presolve/updates.rs          |  8 ++
 3 files changed, 103 insertions(+), 13 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index c3b1019..59e4c82 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -25,7 +25,7 @@ use crate::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
 use crate::data::linear_program::elements::{BoundDirection, LinearProgramType, Objective, RangedConstraintRelation, RangedConstraintRelationKind, VariableType};
 use crate::data::linear_program::general_form::presolve::{Change, Index as PresolveIndex};
 use crate::data::linear_program::general_form::presolve::updates::Changes;
-use crate::data::linear_program::general_form::RemovedVariable::{FunctionOfOthers, Solved};
+use crate::data::linear_program::general_form::RemovedVariable::{BoundedFunctionOfOthers, FunctionOfOthers, Solved};
 use crate::data::linear_program::solution::Solution;
 
 mod presolve;
@@ -129,6 +129,32 @@ pub enum RemovedVariable<F> {
         /// These coefficients were normalized by the coefficient of the slack in the constraint.
         coefficients: SparseTupleVec<F>,
     },
+    /// Variable was determined as a function of other variables, limited to its own bounds.
+    ///
+    /// Like the `FunctionOfOthers` variant, but the value of the affine function is moved to the
+    /// nearest bound if it isn't between the bounds.
+    BoundedFunctionOfOthers {
+        /// See `FunctionOfOthers`.
+        constant: F,
+        /// See `FunctionOfOthers`.
+        coefficients: SparseTupleVec<F>,
+        /// Smallest value the variable can take.
+        lower_bound: Option<F>,
+        /// Largest value the variable can take.
+        upper_bound: Option<F>,
+    },
+}
+
+/// Value between the bounds that is closest to some other value.
+fn limit_to_bounds<F: Ord>(value: F, lower_bound: Option<F>, upper_bound: Option<F>) -> F {
+    let value = match lower_bound {
+        Some(bound) if value < bound => bound,
+        _ => value,
+    };
+    match upper_bound {
+        Some(bound) if value > bound => bound,
+        _ => value,
+    }
 }
 
 /// Check whether the dimensions of the `GeneralForm` are consistent.
@@ -439,6 +465,18 @@ where
         self.fixed_cost += fixed_cost;
 
         for (j, variable) in solved_variables {
+            let Variable { lower_bound, upper_bound, .. } = &self.variables[j];
+            let variable = match variable {
+                FunctionOfOthers { constant, coefficients } if lower_bound.is_some() || upper_bound.is_some() => {
+                    BoundedFunctionOfOthers {
+                        constant,
+                        coefficients,
+                        lower_bound: lower_bound.clone(),
+                        upper_bound: upper_bound.clone(),
+                    }
+                },
+                other => other,
+            };
             self.original_variables[j].1 = OriginalVariable::Removed(variable);
         }
 
@@ -721,7 +759,7 @@ where
         let mut new_solutions = vec![None; self.original_variables.len()];
         let mut changed = Vec::new();
         for (j, (_, variable)) in self.original_variables.iter().enumerate() {
-            if let OriginalVariable::Removed(FunctionOfOthers { .. }) = variable {
+            if let OriginalVariable::Removed(FunctionOfOthers { .. } | BoundedFunctionOfOthers { .. }) = variable {
                 if self.compute_solution_value(j, &mut new_solutions).is_some() {
                     changed.push(j);
                 }
@@ -761,13 +799,22 @@ where
             OriginalVariable::Active(_) => None,
             OriginalVariable::ActiveFree(_, _) => None,
             OriginalVariable::Removed(Solved(value)) => Some(value),
-            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) => {
+            OriginalVariable::Removed(
+                FunctionOfOthers { constant, coefficients } |
+                BoundedFunctionOfOthers { constant, coefficients, .. }
+            ) => {
                 if new_solutions[variable].is_none() {
                     new_solutions[variable] = coefficients.iter().map(|(j, coefficient)| {
                         self.compute_solution_value(*j, new_solutions).map(|v| coefficient * v)
                     })
                         .sum::<Option<OF>>()
-                        .map(|inner_product| constant - inner_product);
+                        .map(|inner_product| constant - inner_product)
+                        .map(|value| match &self.original_variables[variable].1 {
+                            OriginalVariable::Removed(BoundedFunctionOfOthers { lower_bound, upper_bound, .. }) => {
+                                limit_to_bounds(value, lower_bound.clone(), upper_bound.clone())
+                            },
+                            _ => value,
+                        });
                 }
 
                 new_solutions[variable].as_ref()
@@ -893,7 +940,7 @@ where
         reduced_solution: &SparseVector<G, G>,
     ) -> &'a G
     where
-        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero,
+        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero + Ord,
         for<'r> G: Add<&'r OF, Output=G>,
         for<'r> &'r G: Neg<Output=G> + Mul<&'r OF, Output=G> + Add<&'r OF, Output=G> + Sub<&'r G, Output=G>,
     {
@@ -919,12 +966,26 @@ where
                 }
             },
             OriginalVariable::Removed(Solved(v)) => v.clone().into(),
-            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) => {
-                -coefficients.iter()
+            OriginalVariable::Removed(
+                FunctionOfOthers { constant, coefficients } |
+                BoundedFunctionOfOthers { constant, coefficients, .. }
+            ) => {
+                let value = -coefficients.iter()
                     .map(|(j, coefficient)| {
                         self.compute_solution_value_with_bfs::<G>(*j, new_solutions, reduced_solution) * coefficient
                     })
-                    .sum::<G>() + constant
+                    .sum::<G>() + constant;
+
+                match &self.original_variables[variable].1 {
+                    OriginalVariable::Removed(BoundedFunctionOfOthers { lower_bound, upper_bound, .. }) => {
+                        limit_to_bounds(
+                            value,
+                            lower_bound.clone().map(G::from),
+                            upper_bound.clone().map(G::from),
+                        )
+                    },
+                    _ => value,
+                }
             }
         };
 
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 7ff5b48..0a44952 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -45,7 +45,7 @@ where
     /// <=  || <a, x> <= b - cl |                  |      <a, x> <= b - cl      |      |
     /// ==  || <a, x> <= b - cl | <a, x> >= b - cu |   <a, x> =c(u-l)= b - cl   |      |
     /// >=  ||                  | <a, x> >= b - cu |      <a, x> >= b - cu      |      |
-    /// =r= || <a, x> <= b - cl | <a, x> >= b - cu | <a, x> =r + c(u-l)= b - cl |      |
+    /// =r= || <a, x> <= b - cl | <a, x> >= b-r-cu | <a, x> =r + c(u-l)= b - cl |      |
     ///
     /// When c < 0:
     ///     ||      s >= l      |      s <= u      |         l <= s <= u        | free |
@@ -53,7 +53,7 @@ where
     /// <=  ||                  | <a, x> <= b - cu |      <a, x> <= b - cu      |      |
     /// ==  || <a, x> >= b - cl | <a, x> <= b - cu |   <a, x> =c(l-u)= b - cu   |      |
     /// >=  || <a, x> >= b - cl |                  |      <a, x> >= b - cl      |      |
-    /// =r= || <a, x> >= b - cl | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
+    /// =r= || <a, x> >= b-r-cl | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
     ///
     /// Note that nothing changes when the constraint is of type == and s has both a lower and
     /// upper bound (regardless of the sign of c). If a bound is adapted, the column is removed
@@ -89,8 +89,24 @@ where
         let bounds_is_none = (lower.is_none(), upper.is_none());
         let coefficient_sign = coefficient.non_zero_signum();
 
+        // In these cases, the value of the slack depends on its own bounds, and those are looked up
+        // in the problem being presolved when the solution is stored.
+        let solution_needs_bounds = match constraint_type {
+            Equal => false,
+            Range(_) => true,
+            Less | Greater => matches!(
+                (constraint_type, &bounds, coefficient_sign),
+                (Greater, (Some(_), None), Positive) | (Less, (None, Some(_)), Positive) |
+                (Less, (Some(_), None), Negative) | (Greater, (None, Some(_)), Negative)
+            ),
+        };
+        if solution_needs_bounds && self.updates.has_tightened_bound(variable) {
+            return Ok(());
+        }
+
         // Patterns are ordered left to right, top to bottom and then by coefficient (positive to
         // negative)
+        let mut side_shift = OF::zero();
         let (new_constraint_type, bound) = match (constraint_type, bounds, coefficient_sign) {
             // Remove both row and column
             (Greater, (Some(_), None), Positive) | (Less, (None, Some(_)), Positive) |
@@ -135,14 +151,19 @@ where
                 // <a, x> <= b - cl
                 (RangedConstraintRelation::Less, bound)
             },
-            (Equal | Greater | Range(_), (None, Some(bound)), Positive) | (Greater, (Some(_), Some(bound)), Positive) => {
+            (Equal | Greater, (None, Some(bound)), Positive) | (Greater, (Some(_), Some(bound)), Positive) => {
                 // <a, x> >= b - cu
                 (RangedConstraintRelation::Greater, bound)
             },
-            (Equal | Greater | Range(_), (Some(bound), None), Negative) | (Greater, (Some(bound), Some(_)), Negative) => {
+            (Equal | Greater, (Some(bound), None), Negative) | (Greater, (Some(bound), Some(_)), Negative) => {
                 // <a, x> >= b - cl
                 (RangedConstraintRelation::Greater, bound)
             },
+            (Range(range), (None, Some(bound)), Positive) | (Range(range), (Some(bound), None), Negative) => {
+                // <a, x> >= b - r - cu and <a, x> >= b - r - cl
+                side_shift -= range;
+                (RangedConstraintRelation::Greater, bound)
+            },
             (Less | Equal | Range(_), (None, Some(bound)), Negative) | (Less, (Some(_), Some(bound)), Negative) => {
                 // <a, x> <= b - cu
                 (RangedConstraintRelation::Less, bound)
@@ -157,7 +178,7 @@ where
             },
         };
 
-        let change = -&coefficient * &bound;
+        let change = side_shift - &coefficient * &bound;
 
         let removed = match constraint_type {
             Equal | Range(_) => {
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index bdf6397..7ee07fa 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -250,6 +250,14 @@ where
             })
     }
 
+    /// Whether one of the bounds of a variable differs from the one in the original problem.
+    pub(super) fn has_tightened_bound(&self, variable: usize) -> bool {
+        [BoundDirection::Lower, BoundDirection::Upper].into_iter().any(|direction| {
+            self.bounds.contains_key(&(variable, direction)) ||
+                self.activity_bounds.contains_key(&(variable, direction))
+        })
+    }
+
     /// Update a variable bound.
     ///
     /// This is the type of bound that should always be exported, because other changes might depend
-- 
2.43.0


From 8c4240e36429f1eadbb33f777ea64cff6d6da7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:58 +0000
Subject: [PATCH 07/32] fix: support bases with zero or one rows in the LU
 decomposition

Problems with a single constraint (or none) panicked because the
decomposition assumed there always is at least one off-diagonal column.
---
 .../carry/lower_upper/decomposition/mod.rs           |  8 +++-----
 .../inverse_maintenance/carry/lower_upper/mod.rs     | 12 ++++++++++--
 .../carry/lower_upper/permutation/full.rs            |  2 +-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 27abed3..598b678 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -29,14 +29,12 @@ where
 
         // The number of columns gets smaller over time.
         let m = rows.len();
-        debug_assert!(m > 1);
-
         // These values will be returned.
         // They stay the same size, although nothing will be changed in the last indices once they
         // have been processed.
         let mut row_permutation = (0..m).collect::<Vec<_>>();
         let mut column_permutation = (0..m).collect::<Vec<_>>();
-        let mut lower_triangular_row_major = vec![Vec::new(); m - 1];
+        let mut lower_triangular_row_major = vec![Vec::new(); m.saturating_sub(1)];
 
         // These values get smaller over time.
         let (mut nnz_row, mut nnz_column) = count_non_zeros(&rows);
@@ -106,7 +104,7 @@ where
         }
 
         // We collected row-major but need column major, so transpose
-        let mut upper_triangular = vec![Vec::new(); m - 1];
+        let mut upper_triangular = vec![Vec::new(); m.saturating_sub(1)];
         let mut upper_diagonal = Vec::with_capacity(m);
         for (i, row) in rows.into_iter().enumerate() {
             let mut iter = row.into_iter();
@@ -117,7 +115,7 @@ where
                 upper_triangular[j - 1].push((i, value));
             }
         }
-        let mut lower_triangular = vec![Vec::new(); m - 1];
+        let mut lower_triangular = vec![Vec::new(); m.saturating_sub(1)];
         for (i, row) in lower_triangular_row_major.into_iter().enumerate()
             // We collected starting at row 1, but the lowest row index was 1.
             .map(|(i, v)| (i + 1, v)) {
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 6ac98e0..3be4748 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -68,8 +68,8 @@ where
         Self {
             row_permutation: FullPermutation::identity(m),
             column_permutation: FullPermutation::identity(m),
-            lower_triangular: vec![vec![]; m - 1],
-            upper_triangular: vec![vec![]; m - 1],
+            lower_triangular: vec![vec![]; m.saturating_sub(1)],
+            upper_triangular: vec![vec![]; m.saturating_sub(1)],
             upper_diagonal: vec![F::one(); m],
             updates: vec![],
         }
@@ -98,6 +98,14 @@ where
     ) -> SparseVector<Self::F, Self::F> {
         let m = self.m();
 
+        if m == 1 {
+            // There are no values outside of the diagonal, so replace the only value
+            let Self::ColumnComputationInfo { column, mut spike } = column;
+            let (_, diagonal_value) = spike.pop().unwrap();
+            self.upper_diagonal[pivot_row_index] = diagonal_value;
+            return column;
+        }
+
         let pivot_column_index = {
             // Column with a pivot in `pivot_row_index` is leaving
             let mut pivot_column_index = pivot_row_index;
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
index c6c653e..30baebd 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
@@ -25,7 +25,7 @@ impl Full {
     /// Computes the inverse by sorting.
     pub fn new(forward: Vec<usize>) -> Self {
         debug_assert_eq!(forward.iter().collect::<HashSet<_>>().len(), forward.len());
-        debug_assert!(*forward.iter().max().unwrap() < forward.len());
+        debug_assert!(forward.iter().all(|&i| i < forward.len()));
 
         let mut backward = forward.iter()
             .enumerate()
-- 
2.43.0


From 09193973a1a6b84003d64fa39a3b8f87e4095648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:44 +0000
Subject: [PATCH 08/32] fix: allow vectors of length zero

Problems without constraints (or of which all constraints are redundant)
failed assertions on the length of vectors that are legitimately empty.
---
 .../inverse_maintenance/carry/lower_upper/decomposition/mod.rs | 1 -
 src/data/linear_algebra/vector/dense.rs                        | 2 --
 src/data/linear_algebra/vector/sparse.rs                       | 3 +--
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 598b678..a2de7f8 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -275,7 +275,6 @@ fn swap<T>(
 /// Requires iterating over all values once.
 fn count_non_zeros<T>(rows: &[Vec<(usize, T)>]) -> (Vec<usize>, Vec<usize>) {
     let n = rows.len();
-    debug_assert!(n > 0);
     debug_assert!(rows.iter().all(|row| row.iter().all(|&(i, _)| i < n)));
 
     let nnz_row = rows.iter()
diff --git a/src/data/linear_algebra/vector/dense.rs b/src/data/linear_algebra/vector/dense.rs
index 10d638a..b5c772d 100644
--- a/src/data/linear_algebra/vector/dense.rs
+++ b/src/data/linear_algebra/vector/dense.rs
@@ -37,8 +37,6 @@ impl<F> Dense<F> {
     where
         F: Clone,
     {
-        debug_assert_ne!(len, 0);
-
         Self { data: vec![value; len], }
     }
 
diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 77b0fd5..11b4430 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -91,7 +91,6 @@ where
         debug_assert!(data.iter().all(|&(i, _)| i < len));
         debug_assert!(data.is_sorted_by_key(|&(i, _)| i));
         debug_assert!(data.iter().all(|(_, v)| v.borrow().is_not_zero()));
-        debug_assert_ne!(len, 0);
         debug_assert!(data.len() <= len);
 
         Self {
@@ -151,7 +150,7 @@ where
         // All values are unique
         debug_assert!(indices.iter().collect::<HashSet<_>>().len() == indices.len());
         debug_assert!(indices.iter().all(|&i| i < self.len));
-        debug_assert!(indices.len() < self.len);
+        debug_assert!(indices.len() <= self.len);
 
         remove_sparse_indices(&mut self.data, indices);
         self.len -= indices.len();
-- 
2.43.0


From e3bb7939cb5f98fa0faddc9b880d056750c22bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:04 +0000
Subject: [PATCH 09/32] fix: negate the fixed cost together with the costs of a
 maximization problem

Standardization negated only the costs, such that the objective value of
a maximization problem was neither that of the problem nor its negation.
---
 src/data/linear_program/general_form/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 59e4c82..82f04ad 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -665,6 +665,7 @@ where
             for variable in &mut self.variables {
                 variable.cost *= -OF::one();
             }
+            self.fixed_cost *= -OF::one();
         }
     }
 
-- 
2.43.0


From 1a74c8b90d6a215d5a1e3f1da523bf655a349aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 10/32] fix: don't report infeasible problems as unbounded in
 presolve

A variable without constraints that can improve the objective without
limit only makes the problem unbounded if the rest is feasible. Keep such
variables unless there are no constraints left.
---
 src/data/linear_program/general_form/mod.rs   |  5 ++++
 .../general_form/presolve/mod.rs              | 10 +++++--
 .../general_form/presolve/updates.rs          | 30 +++++++++++--------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 82f04ad..50a717d 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -431,6 +431,11 @@ where
             }
         }
 
+        if index.updates.nr_constraints_remaining() == 0 && index.updates.nr_variables_remaining() > 0 {
+            // Variables without constraints are only kept when they have no optimal value.
+            return Err(LinearProgramType::Unbounded);
+        }
+
         Ok(index.updates.into_changes())
     }
 
diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 742d1e4..5a5c6f0 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -309,11 +309,15 @@ where
                 debug_assert!(self.updates.variable_feasible_value(variable).is_some());
 
                 let value = if self.general_form.variables[variable].cost.is_zero() {
-                    RemovedVariable::Solved(self.updates.variable_feasible_value(variable).unwrap())
+                    Some(RemovedVariable::Solved(self.updates.variable_feasible_value(variable).unwrap()))
                 } else {
-                    self.updates.optimize_column_independently(variable)?
+                    self.updates.optimize_column_independently(variable)
                 };
-                self.remove_variable(variable, value);
+                // If there is no optimal value, the problem is unbounded, but only if the rest of
+                // the problem is feasible. Keep the variable, as that isn't known yet.
+                if let Some(value) = value {
+                    self.remove_variable(variable, value);
+                }
             },
             1 => if self.general_form.variables[variable].cost.is_zero() {
                 self.queues.slack.push(variable);
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 7ee07fa..f28329f 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -114,7 +114,7 @@ where
         let mut fixed_cost = OF::zero();
         let removed_variables = counters.variable.iter().enumerate()
             .filter(|&(_, &count)| count == 0)
-            .map(|(j, _)| {
+            .filter_map(|(j, _)| {
                 let variable = &general_form.variables[j];
                 let value = if variable.cost.is_zero() {
                     variable.get_feasible_value().unwrap()
@@ -128,8 +128,8 @@ where
                     value
                 };
 
-                Ok((j, RemovedVariable::Solved(value)))
-            }).collect::<Result<_, _>>()?;
+                Some((j, RemovedVariable::Solved(value)))
+            }).collect();
 
         let constraints_marked_removed = counters.constraint.iter().enumerate()
             .filter(|&(_, &count)| count == 0)
@@ -373,20 +373,25 @@ where
     }
 
     /// Sets variables that can be optimized independently of all others to their optimal values.
+    ///
+    /// # Return value
+    ///
+    /// If there is no optimal value, because the variable can improve the objective without limit,
+    /// `None`.
     pub(super) fn optimize_column_independently(
         &mut self,
         variable: usize,
-    ) -> Result<RemovedVariable<OF>, LinearProgramType<OF>> {
+    ) -> Option<RemovedVariable<OF>> {
         debug_assert_ne!(self.general_form.variables[variable].cost, OF::zero());
 
         let new_value = self.get_optimized_value(variable)?;
         self.fixed_cost += &self.general_form.variables[variable].cost * &new_value;
 
-        Ok(RemovedVariable::Solved(new_value))
+        Some(RemovedVariable::Solved(new_value))
     }
 
     /// Gets the value that maximizes a column's contribution in the objective direction.
-    fn get_optimized_value(&self, variable: usize) -> Result<OF, LinearProgramType<OF>> {
+    fn get_optimized_value(&self, variable: usize) -> Option<OF> {
         let objective = self.general_form.objective;
         let cost = &self.general_form.variables[variable].cost;
         let lower_bound = self.variable_bound(variable, BoundDirection::Lower);
@@ -542,14 +547,13 @@ where
 /// The optimal value if the variable appears in the objective function. Otherwise, any feasible
 /// value.
 ///
-/// # Errors
-///
-/// The problem might be unbounded.
+/// If the value can improve the objective without limit, `None`. The problem is then unbounded or
+/// infeasible, which depends on the rest of the problem.
 fn optimize_independent_column<OF>(
     objective: Objective,
     cost: &OF,
     (lower_bound, upper_bound): (Option<&OF>, Option<&OF>),
-) -> Result<OF, LinearProgramType<OF>>
+) -> Option<OF>
 where
     OF: OrderedField,
     for<'r> &'r OF: OrderedFieldRef<OF>,
@@ -558,11 +562,11 @@ where
 
     match (objective, cost_sign) {
         (Objective::Minimize, Ordering::Greater) | (Objective::Maximize, Ordering::Less) => {
-            lower_bound.ok_or(LinearProgramType::Unbounded)
+            lower_bound
         },
         (Objective::Maximize, Ordering::Greater) | (Objective::Minimize, Ordering::Less) => {
-            upper_bound.ok_or(LinearProgramType::Unbounded)
+            upper_bound
         },
         (_, Ordering::Equal) => panic!("Should not be called if there is no cost"),
-    }.map(OF::clone)
+    }.cloned()
 }
-- 
2.43.0


From afd69d313d138e73043a75c6ddda3e84b56891df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 11/32] fix: reject malformed and too large numbers in MPS
 files instead of panicking or misreading them

---
 src/io/mps/number/parse.rs | 45 ++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index 60e3a58..07b0be2 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -78,36 +78,29 @@ impl TryFrom<&str> for Raw {
     type Error = ParseError;
 
     fn try_from(text: &str) -> Result<Self, Self::Error> {
-        let (has_minus, text) = match &text[0..1] {
-            "-" => (true, &text[1..]),
-            _ => (false, text),
+        let (has_minus, unsigned) = match text.strip_prefix('-') {
+            Some(rest) => (true, rest),
+            None => (false, text.strip_prefix('+').unwrap_or(text)),
         };
+        let (integer_part, mantissa_part) = unsigned.split_once('.').unwrap_or((unsigned, ""));
 
-        let parse = |text: &str, number_part| {
-            if text.is_empty() {
-                Ok(0)
-            } else {
-                text.parse()
-                    .map_err(|error| ParseError::wrap_other(
-                        error,
-                        format!("Failed to parse {} \"{}\" as u64.", number_part, text),
-                    ))
-            }
-        };
-
-        let (integer, decimal_steps_from_right): (u64, _) = match text.find('.') {
-            None => (parse(text, "entire value")?, 0),
-            Some(index) => {
-                let from_right = u32::try_from(text.len() - index - 1)
-                    .expect("It wouldn't make sense for the number text to be so large.");
+        let only_digits = |part: &str| part.bytes().all(|byte| byte.is_ascii_digit());
+        let has_no_digits = integer_part.is_empty() && mantissa_part.is_empty();
+        if has_no_digits || !only_digits(integer_part) || !only_digits(mantissa_part) {
+            return Err(ParseError::new(format!("Failed to parse \"{}\" as a number.", text)));
+        }
 
-                let integer_part = parse(&text[0..index], "integer part")?;
-                let mantissa_part = parse(&text[(index + 1)..], "mantissa part")?;
+        let too_large = || ParseError::new(format!("Number \"{}\" has too many digits.", text));
+        let integer = integer_part.bytes().chain(mantissa_part.bytes())
+            .try_fold(0_u64, |total, digit| {
+                total.checked_mul(10)?.checked_add(u64::from(digit - b'0'))
+            })
+            .ok_or_else(too_large)?;
+        // The denominator should be representable as well.
+        let decimal_steps_from_right = u32::try_from(mantissa_part.len()).ok()
+            .filter(|&steps| 10_u64.checked_pow(steps).is_some())
+            .ok_or_else(too_large)?;
 
-                (integer_part * 10_u64.pow(from_right) + mantissa_part, from_right)
-            },
-        };
-        
         let sign = match (has_minus, integer) {
             (_, 0) => Sign::Zero,
             (false, _) => Sign::Positive,
-- 
2.43.0


From ee88f0bb2749ff0870a1948e4951ba9ec47e13cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 12/32] fix: read short lines of fixed format MPS files without
 panicking or dropping values

---
 src/io/mps/parse/fixed.rs | 117 ++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 62 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 32f08d2..0bd3738 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -41,98 +41,91 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     }
 
     fn one_and_two(line: &str) -> ParseResult<[&str; 2]> {
-        if line.len() > FIELDS[2].start {
-            let type_text = &line[FIELDS[1].clone()];
-
-            let name_field_end = FIELDS[2].end.min(line.len());
-            let name = line[FIELDS[2].start..name_field_end].trim_end();
-            if name.is_empty() {
-                Err(ParseError::new("Empty row name."))
-            } else {
-                Ok([type_text, name])
-            }
+        let type_text = field(line, FIELDS[1].clone())?;
+        let name = field(line, FIELDS[2].clone())?.trim_end();
+
+        if name.is_empty() {
+            Err(ParseError::new("Empty row name."))
         } else {
-            Err(ParseError::new("Line is too short."))
+            Ok([type_text, name])
         }
     }
 
     fn is_column_marker_line(line: &'a str) -> ParseResult<ColumnLineContent<'a, Self::RestOfLine>> {
-        if line.len() >= FIELDS[4].end {
-            if &line[FIELDS[3].clone()] == COLUMN_SECTION_MARKER {
-                if line.len() >= FIELDS[5].end {
-                    Ok(ColumnLineContent::Marker([&line[FIELDS[5].clone()]]))
-                } else {
-                    Err(ParseError::new("Line is too short to be a marker line."))
-                }
-            } else {
-                Ok(ColumnLineContent::Data([
-                    line[FIELDS[2].clone()].trim_end(),
-                    line[FIELDS[3].clone()].trim_end(),
-                    line[FIELDS[4].clone()].trim_start(),
-                ], &line[FIELDS[4].end..]))
+        if field(line, FIELDS[3].clone())?.trim_end() == COLUMN_SECTION_MARKER {
+            match field(line, FIELDS[5].clone())?.trim_end() {
+                "" => Err(ParseError::new("Line is too short to be a marker line.")),
+                marker_text => Ok(ColumnLineContent::Marker([marker_text])),
             }
         } else {
-            Err(ParseError::new("Line is too short."))
+            let (fields, rest_of_line) = Self::two_through_four(line)?;
+            Ok(ColumnLineContent::Data(fields, rest_of_line))
         }
     }
 
     fn two_through_four(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-        if line.len() >= FIELDS[4].end {
-            Ok(([
-                line[FIELDS[2].clone()].trim_end(),
-                line[FIELDS[3].clone()].trim_end(),
-                line[FIELDS[4].clone()].trim_start(),
-            ], &line[FIELDS[4].end..]))
-        } else {
+        let four = field(line, FIELDS[4].clone())?.trim();
+
+        if four.is_empty() {
             Err(ParseError::new("Line is too short."))
+        } else {
+            Ok(([
+                field(line, FIELDS[2].clone())?.trim_end(),
+                field(line, FIELDS[3].clone())?.trim_end(),
+                four,
+            ], field(line, FIELDS[4].end..line.len())?))
         }
     }
 
     fn five_and_six(line_after_first_four: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
-        let relative_field_six_end = FIELDS[6].end - FIELDS[4].end;
-        let result = if line_after_first_four.len() >= relative_field_six_end {
-            let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
-            let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
-
-            let five = line_after_first_four[five_start..five_end].trim_end();
-            let six = line_after_first_four[six_start..six_end].trim_start();
-            if !five.is_empty() && !six.is_empty() {
-                Some([
-                    five,
-                    six,
-                ])
-            } else { None }
-        } else { None };
-
-        Ok(result)
+        let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
+        let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
+
+        let five = field(line_after_first_four, five_start..five_end)?.trim_end();
+        let six = field(line_after_first_four, six_start..six_end)?.trim();
+
+        match (five.is_empty(), six.is_empty()) {
+            (false, false) => Ok(Some([five, six])),
+            (true, true) => Ok(None),
+            _ => Err(ParseError::new("Only one of the fifth and sixth field is present.")),
+        }
     }
 
     fn one_through_three(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-        if line.len() >= FIELDS[3].start {
-            let type_text = &line[FIELDS[1].clone()];
-            let name = line[FIELDS[2].clone()].trim_end();
-            let column = line[FIELDS[3].clone()].trim_end();
-
-            let rest = &line[FIELDS[3].end..];
+        let column = field(line, FIELDS[3].clone())?.trim_end();
 
-            Ok(([type_text, name, column], rest))
-        } else {
+        if column.is_empty() {
             Err(ParseError::new("Line is too short."))
+        } else {
+            Ok(([
+                field(line, FIELDS[1].clone())?,
+                field(line, FIELDS[2].clone())?.trim_end(),
+                column,
+            ], field(line, FIELDS[3].end..line.len())?))
         }
     }
 
     fn four(rest_of_line: Self::RestOfLine) -> ParseResult<[&'a str; 1]> {
+        let start_of_column = FIELDS[4].start - FIELDS[3].end;
         let end_of_column = FIELDS[4].end - FIELDS[3].end;
-        if rest_of_line.len() >= end_of_column {
-            let start_of_column = FIELDS[4].start - FIELDS[3].end;
-            let value_text = rest_of_line[start_of_column..end_of_column].trim_start();
-            Ok([value_text])
-        } else {
-            Err(ParseError::new("Line doesn't contain another value, it's too short."))
+
+        match field(rest_of_line, start_of_column..end_of_column)?.trim() {
+            "" => Err(ParseError::new("Line doesn't contain another value, it's too short.")),
+            value_text => Ok([value_text]),
         }
     }
 }
 
+/// The part of a line in certain columns.
+///
+/// Lines might end before or inside of a field, what is missing is considered blank.
+fn field(line: &str, range: Range<usize>) -> ParseResult<&str> {
+    let (start, end) = (range.start.min(line.len()), range.end.min(line.len()));
+
+    line.get(start..end)
+        .ok_or_else(|| ParseError::new("A field does not start or end at a character boundary."))
+}
+
 /// Character ranges for the different fields of the column.
 const FIELDS: [Range<usize>; 7] = [
     0..1,
-- 
2.43.0


From e5551f1844e5355aaa789ce4b8d346b58e3b8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 13/32] fix: return errors for inconsistent or unsupported MPS
 files instead of panicking or dropping data

---
 src/io/mps/parse/mod.rs | 55 +++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index ee371c3..5c00515 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -59,7 +59,7 @@ fn parse<'a, F: Parse, CR: ColumnRetriever<'a>>(
 
     let (columns, cost_values, next_section) =
         parse_column_section::<_, CR, _>(&mut lines, &cost_row_name, &row_index)?;
-    let column_index = build_column_index(&columns);
+    let column_index = build_column_index(&columns)?;
 
     let (rhss, next_section) = if next_section == Section::Rhs {
         parse_optional_section::<_, CR, _, _, 2>(&mut lines, [Section::Ranges, Section::Bounds], &row_index)?
@@ -179,16 +179,15 @@ fn parse_program_name<'a, CR: ColumnRetriever<'a>>(
                 return Err(ParseError::with_location("Line too short.", (number, line)));
             }
 
-            let expected_name_string = &line[0..NAME.len()];
-            if expected_name_string == NAME {
-                let name = CR::two_or_three(&line[NAME.len()..])
+            if let Some(line_after_name) = line.strip_prefix(NAME) {
+                let name = CR::two_or_three(line_after_name)
                     .map_err(|e| e.wrap(format!("Could not read program name \
                     from line {}. Ths line looked like \"{}\"", number, line)))?[0];
                 Ok(name.to_string())
             } else {
                 Err(ParseError::with_location(
                     format!(
-                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, expected_name_string,
+                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, line,
                     ),
                     (number, line),
                 ))
@@ -386,7 +385,6 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         &mut column_to_be_saved, &mut column_collector, &mut collector, active_variable_type,
                     )?;
 
-                    // TODO(CORRECTNESS): Err when the type doesn't actually change?
                     let previous_variable_type = active_variable_type;
                     active_variable_type = match marker_text {
                         START_OF_INTEGER => VariableType::Integer,
@@ -395,7 +393,11 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                             format!("Marker type \"{}\" unknown.", marker_text), (number, line),
                         ).into()),
                     };
-                    debug_assert_ne!(previous_variable_type, active_variable_type);
+                    if active_variable_type == previous_variable_type {
+                        return Err(ParseError::with_location(
+                            "Marker doesn't change the variable type.", (number, line),
+                        ).into());
+                    }
                 },
                 ColumnLineContent::Data([column_name, row_name, value_text], rest_of_line) => {
                     // Read the name of the group and save the group if necessary
@@ -418,6 +420,11 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         match row_map.get(row_name) {
                             None => if row_name == cost_row_name {
                                 let column_index = collector.len();
+                                if matches!(cost_values_collector.last(), Some(&(j, _)) if j == column_index) {
+                                    return Err(Inconsistency::new(
+                                        "Multiple cost values for a single column.",
+                                    ).into());
+                                }
                                 cost_values_collector.push((column_index, value))
                             } else {
                                 return Err(Inconsistency::new(format!("Row \"{}\" not known.", row_name)).into());
@@ -499,19 +506,25 @@ fn save_to_column_collector<F>(
 ///
 /// A map assigning to each column name a value.
 ///
+/// # Errors
+///
+/// If the values of a column are not listed consecutively (or if its name is used twice), the MPS
+/// is considered inconsistent.
+///
 /// # Note
 ///
 /// This assignment is not a specific order.
-fn build_column_index<F>(columns: &[Column<F>]) -> HashMap<&str, usize> {
-    debug_assert_eq!(
-        columns.iter().map(|column| column.name.as_str()).collect::<HashSet<_>>().len(),
-        columns.len(),
-    );
-
-    columns.iter()
+fn build_column_index<F>(columns: &[Column<F>]) -> Result<HashMap<&str, usize>, Inconsistency> {
+    let index = columns.iter()
         .enumerate()
         .map(|(index, column)| (column.name.as_str(), index))
-        .collect()
+        .collect::<HashMap<_, _>>();
+
+    if index.len() < columns.len() {
+        Err(Inconsistency::new("Not all column names are unique"))
+    } else {
+        Ok(index)
+    }
 }
 
 trait ListedInGroup {
@@ -741,7 +754,7 @@ fn parse_bound_line<'a, F: Parse, CR: ColumnRetriever<'a>>(
                 _ => unreachable!(),
             }
         },
-        "SC" => unimplemented!(),
+        "SC" => return Err(ParseError::new("Semi-continuous variables are not supported.").into()),
         _ => return Err(ParseError::new(format!("Bound type \"{}\" unknown.", bound_type_text)).into()),
     };
 
@@ -821,11 +834,11 @@ impl FromStr for RowType {
     ///
     /// Any `String` slices not equal to either `N`, `L`, `E` or `G` will fair to be parsed.
     fn from_str(word: &str) -> Result<RowType, Self::Err> {
-        match &word[0..1] {
-            "N" => Ok(RowType::Cost),
-            "L" => Ok(RowType::Constraint(ConstraintRelation::Less)),
-            "E" => Ok(RowType::Constraint(ConstraintRelation::Equal)),
-            "G" => Ok(RowType::Constraint(ConstraintRelation::Greater)),
+        match word.chars().next() {
+            Some('N') => Ok(RowType::Cost),
+            Some('L') => Ok(RowType::Constraint(ConstraintRelation::Less)),
+            Some('E') => Ok(RowType::Constraint(ConstraintRelation::Equal)),
+            Some('G') => Ok(RowType::Constraint(ConstraintRelation::Greater)),
             _ => Err(ParseError::new(format!("Row type \"{}\" unknown.", word))),
         }
     }
-- 
2.43.0


From 1362c1c7d614de5f6843513a7aef23ba0c7d06bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 14/32] fix: apply MPS ranges of rows without a right-hand side
 value

---
 src/io/mps/convert.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index bf1b103..b28f3cf 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -460,9 +460,19 @@ where
     // Assumption: if there are multiple rhs values for a row with a range, all these values are
     // equal
 
-    // We fill b with options, and then explicitly substitute the default value later.
+    // We fill b with options, and substitute the default value for rows that have no value. Rows
+    // that have a range are processed even if they have no value.
+    let mut has_value = vec![false; rows.len()];
+    for &(i, _) in rhss.iter().flat_map(|rhs| rhs.values.iter()) {
+        has_value[i] = true;
+    }
+    let defaults = has_value.into_iter().enumerate()
+        .filter(|&(_, has_value)| !has_value)
+        .map(|(i, _)| (i, OFI::zero()))
+        .collect::<Vec<_>>();
+
     let mut b: Vec<Option<OFO>> = vec![None; rows.len()];
-    for (i, value) in rhss.into_iter().flat_map(|rhs| rhs.values.into_iter()) {
+    for (i, value) in rhss.into_iter().flat_map(|rhs| rhs.values.into_iter()).chain(defaults) {
         match &mut b[i] {
             None => match &mut constraints[i] {
                 RangedConstraintRelation::Range(range) => {
@@ -482,8 +492,10 @@ where
                 _ => b[i] = Some(value.into()),
             }
             Some(current) => {
-                // There can be at most one rhs value for each row that has a range.
-                debug_assert!(!matches!(constraints[i], RangedConstraintRelation::Range(_)));
+                // All rhs values of a row that has a range are equal, so one of them was enough.
+                if matches!(constraints[i], RangedConstraintRelation::Range(_)) {
+                    continue;
+                }
 
                 let converted: OFO = value.into();
                 match rows[i].constraint_type {
@@ -503,7 +515,6 @@ where
         }
     }
 
-    // Substitute the default value.
     let b = b.into_iter().map(|value| value.unwrap_or_else(OFO::zero)).collect();
     Ok(DenseVector::new(b, nr_rows))
 }
-- 
2.43.0


From c4d1143daafc82e52bcc0236b3af415bf46d5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 15/32] fix: leave zero coefficients of MPS files out of the
 constraint matrix

---
 src/io/mps/convert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index b28f3cf..a8da7b3 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -122,7 +122,12 @@ fn compute_variable_info<FI, FO: From<FI> + NonZero + Zero + One + Ord + Display
     process_bounds(&mut info, bounds)?;
     let (values, names): (Vec<_>, Vec<_>) = values_names.into_iter()
         .map(|(collection, names)| {
-            (collection.into_iter().map(|(i, v)| (i, v.into())).collect(), names)
+            // Values that are explicitly listed as zero are not part of the sparse representation.
+            let values = collection.into_iter()
+                .map(|(i, v)| (i, v.into()))
+                .filter(|(_, v): &(usize, FO)| v.is_not_zero())
+                .collect();
+            (values, names)
         })
         .unzip();
 
-- 
2.43.0


From bd5eab1fcae51ae25c787c1234cf080da0775ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 16/32] fix: relate variables removed by a second presolve to
 the original problem

---
 src/data/linear_program/general_form/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 50a717d..eda7ffa 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -482,7 +482,8 @@ where
                 },
                 other => other,
             };
-            self.original_variables[j].1 = OriginalVariable::Removed(variable);
+            let original = self.from_active_to_original[j];
+            self.original_variables[original].1 = OriginalVariable::Removed(variable);
         }
 
         for ((j, direction), value) in bounds {
-- 
2.43.0


From 8015c6488399cda7941dd8565eb7a3e7ffc9c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 17/32] fix: allow deleting rows from a matrix provider with
 removed rows

---
 .../two_phase/matrix_provider/filter/generic_wrapper.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
index 62c6973..0afdd57 100644
--- a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
+++ b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
@@ -147,7 +147,7 @@ where
         debug_assert!(i < self.provider.nr_rows() - self.rows_to_skip.len());
 
         let in_original_problem = self.get_underlying_row_index(i);
-        debug_assert!(self.rows_to_skip.contains(&in_original_problem));
+        debug_assert!(!self.rows_to_skip.contains(&in_original_problem));
         let insertion_index = match self.rows_to_skip.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting a row that already was deleted!"),
             Err(nr) => nr,
@@ -211,7 +211,7 @@ where
     /// * `i`: Index in the reduced version of the problem to be deleted from the original problem.
     fn delete_index(skip_indices_array: &mut Vec<usize>, i: usize) {
         let in_original_problem = RemoveRows::<MP>::get_underlying_index(skip_indices_array, i);
-        debug_assert!(skip_indices_array.contains(&in_original_problem));
+        debug_assert!(!skip_indices_array.contains(&in_original_problem));
 
         let insertion_index = match skip_indices_array.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting an index that already was deleted."),
-- 
2.43.0


From eb3ab2c86fbb6e8f2daabd638c8acb6779519766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 18/32] fix: let the first profitable rule with memory consider
 every column

---
 src/algorithm/two_phase/strategy/pivot_rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/two_phase/strategy/pivot_rule.rs b/src/algorithm/two_phase/strategy/pivot_rule.rs
index 77a8527..d9f58f4 100644
--- a/src/algorithm/two_phase/strategy/pivot_rule.rs
+++ b/src/algorithm/two_phase/strategy/pivot_rule.rs
@@ -140,7 +140,7 @@ where
                 || find(tableau.start_index()..tableau.nr_columns()),
                 |last| {
                     find((last + 1)..tableau.nr_columns())
-                        .or_else(|| find(tableau.start_index()..last))
+                        .or_else(|| find(tableau.start_index()..(last + 1)))
                 },
             );
 
-- 
2.43.0


From 01ba90d43f1b8f21e5e4a025f2ef54325871c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 19/32] fix: scale problems without any factors or variables

---
 .../general_form/presolve/scale/rational/mod.rs      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
index 9209629..9709d96 100644
--- a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
+++ b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
@@ -55,7 +55,16 @@ where
         // Optimize per factor
         let scale_per_factor = factorization.solve();
         // Aggregate scaling per factor
-        let scaling = combine_factors(scale_per_factor);
+        let scaling = if scale_per_factor.is_empty() {
+            // No value has any factor, so there is nothing to scale
+            Scaling {
+                cost_factor: R::one(),
+                constraint_row_factors: vec![R::one(); self.nr_constraints()],
+                constraint_column_factors: vec![R::one(); self.nr_variables()],
+            }
+        } else {
+            combine_factors(scale_per_factor)
+        };
         // Apply the computed scaling
         scale(self, &scaling, |x, y| *x *= y, |x, y| *x /= y);
 
@@ -226,6 +235,7 @@ impl<R: NonZeroFactorizable<Power=i32>> GeneralFormFactorization<R> {
     ) -> Option<NextSide> {
         match (row_queue.len(), column_queue.len()) {
             (0, 0) => None,
+            (_, 0) => Some(NextSide::Row(row_queue.pop().unwrap())),
             (constraints, variables) => Some({
                 match (constraints * self.nr_variables()).cmp(&(variables * self.nr_constraints())) {
                     Ordering::Less => NextSide::Column(column_queue.pop().unwrap()),
-- 
2.43.0


From 34e00130a450bbd04cface6f3f2dbf94928e2c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 20/32] fix: multiply an empty row with the explicit basis
 inverse

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index dfb2547..f0b99bf 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -160,14 +160,12 @@ where
     }
 
     fn right_multiply_by_basis_inverse<'a, I: ColumnIterator<'a>>(
-        &self, mut row: I,
+        &self, row: I,
     ) -> SparseVector<Self::F, Self::F>
     where
         Self::F: ops::Column<I::F>,
     {
-        let (index, factor) = row.next().unwrap();
-        let items = self.rows[index].iter().map(|(j, value)| (j, value * factor)).collect();
-        let mut total = SparseVector::new(items, self.m());
+        let mut total = SparseVector::new(Vec::with_capacity(0), self.m());
 
         for (index, factor) in row {
             total.add_multiple_of_row(factor, &self.rows[index]);
-- 
2.43.0


From c73547c393e9c582bd72b48ebfdbe96e474778b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 21/32] Add a hook to run phase one with a chosen pivot rule
 (cfg relp_verif)

---
 src/algorithm/two_phase/phase_one.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/algorithm/two_phase/phase_one.rs b/src/algorithm/two_phase/phase_one.rs
index 62b19e0..9920352 100644
--- a/src/algorithm/two_phase/phase_one.rs
+++ b/src/algorithm/two_phase/phase_one.rs
@@ -178,6 +178,31 @@ where
     }
 }
 
+/// Phase one with a chosen pivot rule, so that monitors can observe it.
+///
+/// # Arguments
+///
+/// * `provider`: Problem to find a basic feasible solution for.
+/// * `partial`: Whether to start from the initial basis elements suggested by the provider.
+#[cfg(relp_verif)]
+pub fn compute_bfs_with_rule<IM, MP, PR>(provider: &MP, partial: bool) -> RankedFeasibilityResult<IM>
+where
+    IM: InverseMaintainer<F:
+        im_ops::FieldHR +
+        im_ops::Column<<<MP as MatrixProvider>::Column as Column>::F> +
+        im_ops::Cost<Cost> +
+        im_ops::Rhs<<MP as MatrixProvider>::Rhs> +
+    >,
+    MP: PartialInitialBasis + MatrixProvider<Column: Identity>,
+    PR: PivotRule<IM::F>,
+{
+    if partial {
+        primal::<_, _, MP, PR>(Tableau::<_, PartiallyArtificial<_>>::new(provider))
+    } else {
+        primal::<_, _, MP, PR>(Tableau::<_, FullyArtificial<_>>::new(provider))
+    }
+}
+
 /// LP's can be either feasible (allowing at least one solution) or infeasible (allowing no
 /// solutions).
 ///
-- 
2.43.0


From f5de50b9ce88970d7e19f093af38b05fa78925d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 22/32] fix: allow removing all rows of the explicit basis
 inverse

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index f0b99bf..71cfc34 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -213,7 +213,7 @@ where
 {
     fn remove_basis_part(&mut self, indices: &[usize]) {
         let old_m = self.m();
-        debug_assert!(indices.len() < old_m);
+        debug_assert!(indices.len() <= old_m);
 
         remove_indices(&mut self.rows, indices);
         // Remove the columns
-- 
2.43.0


From 4a80ae84991ccde89db06b8ed7028b7090703460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 23/32] fix: compute relative costs exactly when costs are zero
 or one

---
 src/algorithm/two_phase/tableau/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/two_phase/tableau/mod.rs b/src/algorithm/two_phase/tableau/mod.rs
index ba52393..f6b9c70 100644
--- a/src/algorithm/two_phase/tableau/mod.rs
+++ b/src/algorithm/two_phase/tableau/mod.rs
@@ -106,7 +106,9 @@ where
     pub fn relative_cost(&self, j: usize) -> IM::F {
         debug_assert!(j < self.nr_columns());
 
-        let initial = self.kind.initial_cost_value(j);
+        // Convert the cost to a full number first: adding the special `Binary` and `One` number types
+        // to a negative number directly isn't exact in `relp_num`.
+        let initial = IM::F::zero() + self.kind.initial_cost_value(j);
         let difference = self.inverse_maintainer.cost_difference(&self.kind.original_column(j));
         difference + initial
     }
-- 
2.43.0


From dec5c613155c71f5dac1053dc7344a647b06ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 24/32] fix: add and subtract arc directions exactly

---
 src/data/linear_program/network/representation.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/data/linear_program/network/representation.rs b/src/data/linear_program/network/representation.rs
index 3a2d5b3..2303017 100644
--- a/src/data/linear_program/network/representation.rs
+++ b/src/data/linear_program/network/representation.rs
@@ -5,7 +5,7 @@ use std::fmt;
 use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};
 
 use index_utils::remove_sparse_indices;
-use relp_num::{Field, Negateable, One};
+use relp_num::{Field, Negateable};
 use relp_num::NonZero;
 use relp_num::RationalBig;
 
@@ -209,10 +209,8 @@ impl AddAssign<ArcDirection> for RationalBig {
 impl AddAssign<&ArcDirection> for RationalBig {
     #[inline]
     fn add_assign(&mut self, rhs: &ArcDirection) {
-        match rhs {
-            ArcDirection::Incoming => *self += One,
-            ArcDirection::Outgoing => *self -= One,
-        }
+        // Adding the special `One` number type to a negative number isn't exact in `relp_num`.
+        *self += Self::from(rhs);
     }
 }
 
@@ -248,10 +246,7 @@ impl SubAssign<ArcDirection> for RationalBig {
 impl SubAssign<&ArcDirection> for RationalBig {
     #[inline]
     fn sub_assign(&mut self, rhs: &ArcDirection) {
-        match rhs {
-            ArcDirection::Incoming => *self -= One,
-            ArcDirection::Outgoing => *self += One,
-        }
+        *self -= Self::from(rhs);
     }
 }
 
-- 
2.43.0


From 923a6894f546c46e697857deada7ab384d4bac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 25/32] fix: display inconsistency errors without endless
 recursion

---
 src/io/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/error.rs b/src/io/error.rs
index 0176ae7..c20f969 100644
--- a/src/io/error.rs
+++ b/src/io/error.rs
@@ -226,12 +226,12 @@ impl Inconsistency {
 
 impl Display for Inconsistency {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "ProgramError: {}", self)
+        write!(f, "ProgramError: {}", self.description)
     }
 }
 
 impl Error for Inconsistency {
     fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
+        None
     }
 }
-- 
2.43.0


From 8d2f80e3fdf35aff1ce138b27f11e334711ea124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 26/32] fix: reject MPS files without a columns section

---
 src/io/mps/parse/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 5c00515..906a764 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -282,8 +282,12 @@ fn parse_row_section<'a, CR: ColumnRetriever<'a>, L: Iterator<Item = FileLocatio
             }
         } else {
             // Section has ended.
-            try_parse_next_section(line, [Section::Columns])?;
-            return Ok((cost_row_name, collector));
+            return match try_parse_next_section(line, [Section::Columns])? {
+                Section::Columns => Ok((cost_row_name, collector)),
+                _ => Err(ParseError::with_location(
+                    format!("The {} section is missing.", Section::Columns), (number, line),
+                )),
+            };
         }
     }
 
-- 
2.43.0


From 81b35030adaed4ab0688d689acf8e7e15c4af873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 27/32] fix: read row types in the second character of their
 field in fixed format MPS files

---
 src/io/mps/parse/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 0bd3738..aae7e63 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -41,7 +41,7 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     }
 
     fn one_and_two(line: &str) -> ParseResult<[&str; 2]> {
-        let type_text = field(line, FIELDS[1].clone())?;
+        let type_text = field(line, FIELDS[1].clone())?.trim();
         let name = field(line, FIELDS[2].clone())?.trim_end();
 
         if name.is_empty() {
-- 
2.43.0


From 8254b5b1cb9d7ade626f4f0e1f4ccd4923877967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:52 +0000
Subject: [PATCH 28/32] fix: shift sparse vector values without comparing
 different number types

The equality of RationalBig with rationals of a fixed size ignores the sign,
so a value equal to the shift was removed instead of doubled, and solutions of
problems with Rational64 data could get wrong values.
---
 src/data/linear_algebra/vector/sparse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 11b4430..0c552b4 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -307,7 +307,9 @@ where
         if value.is_not_zero() {
             match self.get_data_index(i) {
                 Ok(index) => {
-                    if self.data[index].1 == -&value {
+                    // Compare within one number type: `RationalBig`'s equality with rationals of a
+                    // fixed size ignores the sign.
+                    if self.data[index].1 == F::from(-&value) {
                         self.set_zero(i);
                     } else {
                         self.data[index].1 += value;
-- 
2.43.0


From 2ebed63d3a690dfeca7ba56e7da07e941c17037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:41 +0000
Subject: [PATCH 29/32] fix: separate the printed entries of a sparse vector by
 commas

---
 src/data/linear_algebra/vector/sparse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 0c552b4..66af042 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -388,11 +388,11 @@ where
 impl<F: SparseElement<C>, C: SparseComparator> Display for Sparse<F, C> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "[")?;
-        for (index, value) in &self.data {
-            write!(f, "({} {})", index, value)?;
-            if *index < self.data.len() - 1 {
+        for (position, (index, value)) in self.data.iter().enumerate() {
+            if position > 0 {
                 write!(f, ", ")?;
             }
+            write!(f, "({} {})", index, value)?;
         }
         write!(f, "]")
     }
-- 
2.43.0


From deb2b696a8a2f45b0844e624c0098b3e3043bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:41 +0000
Subject: [PATCH 30/32] fix: print tableaus and basis inverses without rows
 instead of panicking

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs   | 2 +-
 src/algorithm/two_phase/tableau/mod.rs                        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index 71cfc34..178def9 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -248,7 +248,7 @@ where
             }).collect::<Vec<_>>()
         }).collect::<Vec<_>>();
 
-        let row_counter_width = (self.m() - 1).to_string().len();
+        let row_counter_width = self.m().saturating_sub(1).to_string().len();
         let column_width = (0..self.m()).map(|j| {
             max(j.to_string().len(), (0..self.m()).map(|i| rows[i][j].len()).max().unwrap())
         }).collect::<Vec<_>>();
diff --git a/src/algorithm/two_phase/tableau/mod.rs b/src/algorithm/two_phase/tableau/mod.rs
index f6b9c70..98ce3c5 100644
--- a/src/algorithm/two_phase/tableau/mod.rs
+++ b/src/algorithm/two_phase/tableau/mod.rs
@@ -387,13 +387,13 @@ where
         let row_counter_width = "cost".len();
         let column_width = columns.iter().enumerate().map(|(j, column)| {
             [
-                column.iter().map(String::len).max().unwrap(),
+                column.iter().map(String::len).max().unwrap_or(0),
                 j.to_string().len(),
                 cost[j].len(),
             ].iter().max().copied().unwrap()
         }).collect::<Vec<_>>();
 
-        let b_inner_width = max(b.iter().map(String::len).max().unwrap(), objective.len());
+        let b_inner_width = max(b.iter().map(String::len).max().unwrap_or(0), objective.len());
 
         // Column counters
         write!(f, "{0:>width$} |", "", width = row_counter_width)?;
-- 
2.43.0


From 92612cd314db51d0b66496efeecec4d5556db0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:20 +0000
Subject: [PATCH 31/32] fix: reject texts that are not a number when reading
 floats

---
 src/io/mps/number/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index 07b0be2..175aabe 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -29,7 +29,9 @@ impl Parse for f64 {
 
         let minimum_magnitude = 1e-10;
         let maximum_magnitude = 1e10;
-        if value.abs() < minimum_magnitude {
+        if value.is_nan() {
+            Err(ParseError::new(format!("Parsed value text \"{}\" is not a number.", text)))
+        } else if value.abs() < minimum_magnitude {
             Err(ParseError::new(format!(
                 "Parsed value was {}, but can't be smaller than {}.", value, minimum_magnitude,
             )))
-- 
2.43.0


From 006c4859f8a24db9f1f23df9bc2c3e814cff4749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:20 +0000
Subject: [PATCH 32/32] fix: accept the number zero when reading floats

---
 src/io/mps/number/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index 175aabe..dbd2983 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -31,7 +31,7 @@ impl Parse for f64 {
         let maximum_magnitude = 1e10;
         if value.is_nan() {
             Err(ParseError::new(format!("Parsed value text \"{}\" is not a number.", text)))
-        } else if value.abs() < minimum_magnitude {
+        } else if value != 0_f64 && value.abs() < minimum_magnitude {
             Err(ParseError::new(format!(
                 "Parsed value was {}, but can't be smaller than {}.", value, minimum_magnitude,
             )))
-- 
2.43.0

