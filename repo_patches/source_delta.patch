From 6ddd3149069d0284666ce9b0b344ae93df3c80c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 1/5] fix: never sample an unreachable next state from a CIM
 row

---
 src/params.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 71395af..2a644b3 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -231,24 +231,21 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
                 let lambda = cim[[u, state, state]] * -1.0;
                 let urand: f64 = rng.gen_range(0.0..=1.0);
 
-                let next_state = cim.slice(s![u, state, ..]).map(|x| x / lambda).iter().fold(
-                    (0, 0.0),
-                    |mut acc, ele| {
-                        if &acc.1 + ele < urand && ele > &0.0 {
-                            acc.0 += 1;
-                        }
-                        if ele > &0.0 {
-                            acc.1 += ele;
-                        }
-                        acc
-                    },
-                );
-
-                let next_state = if next_state.0 < state {
-                    next_state.0
-                } else {
-                    next_state.0 + 1
-                };
+                // Walk over the reachable states accumulating their probabilities until `urand` is
+                // covered. If the rounding errors prevent the accumulated probability from reaching
+                // `urand`, the last reachable state is selected.
+                let mut next_state = state;
+                let mut cumulative = 0.0;
+                for (idx, intensity) in cim.slice(s![u, state, ..]).iter().enumerate() {
+                    if idx == state || intensity <= &0.0 {
+                        continue;
+                    }
+                    next_state = idx;
+                    cumulative += intensity / lambda;
+                    if cumulative >= urand {
+                        break;
+                    }
+                }
 
                 let next_state = StateType::Discrete(next_state);
                 trace!(
-- 
2.43.0


From 944c3d3e6d810707bee6168df4a473e02942569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 2/5] fix: credit each sojourn with the reward of the state
 occupied during it

---
 src/reward/reward_evaluation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 5861e75..fa80e80 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -211,6 +211,10 @@ impl RewardEvaluation for MonteCarloReward {
                     ret += discount * r.instantaneous_reward;
                 } else {
                     let r = reward_function.call(&current.state, Some(&previous.state));
+                    // The process occupies the state `previous` until `current.t`.
+                    let instantaneous_reward = reward_function
+                        .call(&previous.state, None)
+                        .instantaneous_reward;
                     let discount = match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => current.t - previous.t,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
@@ -219,7 +223,7 @@ impl RewardEvaluation for MonteCarloReward {
                                 / discount_factor
                         }
                     };
-                    ret += discount * r.instantaneous_reward;
+                    ret += discount * instantaneous_reward;
                     ret += match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => 1.0,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-- 
2.43.0


From 5c910b0e69aaa522e52cce17575e5b30ca73d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 3/5] fix: sample from a CtmpProcess, whose node has a single
 CIM

---
 src/sampling.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index 66abc34..4d39cf8 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -154,6 +154,16 @@ impl<'a, T: NetworkProcess> ForwardSampler<'a, T> {
         fs.reset();
         return fs;
     }
+
+    /// Index of the CIM governing `node` in `state`. The only CIM of a node without parents (like
+    /// the node of a `CtmpProcess`) has index 0.
+    fn param_index(net: &T, node: usize, state: &NetworkProcessState) -> usize {
+        if net.get_parent_set(node).is_empty() {
+            0
+        } else {
+            net.get_param_index_network(node, state)
+        }
+    }
 }
 
 impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {
@@ -178,7 +188,7 @@ impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {
                             self.net
                                 .get_node(idx)
                                 .state_to_index(&self.current_state[idx]),
-                            self.net.get_param_index_network(idx, &self.current_state),
+                            Self::param_index(self.net, idx, &self.current_state),
                             &mut self.rng,
                         )
                         .unwrap()
@@ -207,8 +217,7 @@ impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {
                 self.net
                     .get_node(next_node_transition)
                     .state_to_index(&self.current_state[next_node_transition]),
-                self.net
-                    .get_param_index_network(next_node_transition, &self.current_state),
+                Self::param_index(self.net, next_node_transition, &self.current_state),
                 &mut self.rng,
             )
             .unwrap();
-- 
2.43.0


From a77ce63f83d7f943c0c9d4d76c78a9bb09ef5e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:34 +0000
Subject: [PATCH 4/5] fix: random parameters were NaN when a uniform draw was
 exactly 0

---
 src/tools.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 5085c43..67de3d7 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -333,7 +333,8 @@ impl RandomParametersGenerator for UniformParametersGenerator {
                             node_domain_cardinality,
                             node_domain_cardinality,
                         ),
-                        |_| self.rng.gen(),
+                        // A draw of exactly 0 could leave a row without any intensity to normalize.
+                        |_| self.rng.gen::<f64>().max(f64::MIN_POSITIVE),
                     );
                     cim.axis_iter_mut(Axis(0)).for_each(|mut x| {
                         x.diag_mut().fill(0.0);
-- 
2.43.0


From 2b30b3b29e08c6d5463a0f5209406b9676dbbf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 5/5] fix: validate_params accepted negative and non-finite
 intensities

A row such as [-1, 2, -1] or one with infinite or NaN entries passed the
validation (NaN compares false with everything) although a sampler cannot
draw from it.
---
 src/params.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/params.rs b/src/params.rs
index 2a644b3..363d485 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -297,6 +297,17 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             return Err(ParamsError::InvalidCIM(message));
         }
 
+        // Check if each intensity is a finite number
+        if cim.iter().any(|x| !x.is_finite()) {
+            warn!(
+                "The intensities of the cim for node {} must be finite",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The intensities of each cim must be finite",
+            )));
+        }
+
         // Check if the diagonal of each cim is non-positive
         if cim
             .axis_iter(Axis(0))
@@ -311,6 +322,20 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
+        // Check if the intensities outside the diagonal of each cim are non-negative
+        if cim
+            .indexed_iter()
+            .any(|((_, from, to), x)| from != to && x < &0.0)
+        {
+            warn!(
+                "The intensities outside the diagonal of each cim for node {} must be non-negative",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The intensities outside the diagonal of each cim must be non-negative",
+            )));
+        }
+
         // Check if each row sum up to 0
         if cim
             .sum_axis(Axis(2))
-- 
2.43.0

