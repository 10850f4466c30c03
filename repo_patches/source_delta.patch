From 8a8de518c7a117e9f1b7d353ceb572754a5d0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:27 +0000
Subject: [PATCH 01/38] fix: Ising energy truncated the coupling messages for
 integer samples

The message buffer inherited the integer dtype of x, so non-integer
couplings were rounded toward zero and forward(int) != forward(float).
---
 discs/models/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/ising.py b/discs/models/ising.py
index 2a7aa0e..cdbad94 100644
--- a/discs/models/ising.py
+++ b/discs/models/ising.py
@@ -48,7 +48,7 @@ class Ising(abstractmodel.AbstractModel):
     w_h = params[0][:, :-1]
     w_v = params[1][:-1, :]
     w_b = params[2]
-    message = jnp.zeros_like(x)
+    message = jnp.zeros(x.shape, dtype=w_b.dtype)
     message = message.at[:, :-1, :].set(
         message[:, :-1, :] + (2 * x[:, 1:, :] - 1) * w_v
     )
-- 
2.43.0


From 016f472cd5453792e686874813f4ede629c11adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:27 +0000
Subject: [PATCH 02/38] fix: categorical GWG mixed the proposal likelihoods of
 all chains

The index arrays broadcast to [batch, batch], so each chain's proposal
log-likelihood summed over the moves of every chain in the batch.
---
 discs/samplers/gwg.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/discs/samplers/gwg.py b/discs/samplers/gwg.py
index 656201c..e657d80 100644
--- a/discs/samplers/gwg.py
+++ b/discs/samplers/gwg.py
@@ -163,11 +163,7 @@ class CategoricalGWGSampler(GibbsWithGradSampler):
     return y, {'x2y': idx, 'y2x': idx_y2x}
 
   def get_ll_onestep(self, dist, aux, src_to_dst):
-    ll = dist[
-        jnp.expand_dims(jnp.arange(dist.shape[0]), axis=1), aux[src_to_dst]
-    ]
-    ll = jnp.sum(ll, axis=-1)
-    return ll
+    return dist[jnp.arange(dist.shape[0]), aux[src_to_dst]]
 
 
 def build_sampler(config):
-- 
2.43.0


From 3d7d88f53c9801063ca330c8dc7968c91fe12577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:27 +0000
Subject: [PATCH 03/38] fix: Hamming ball sampler used neighbour counts as
 logits

The radius has to be drawn with probability proportional to the number of
neighbours at that radius, otherwise the auxiliary point is not uniform on
the ball and the target is not invariant for blocks larger than one.
---
 discs/samplers/hammingball.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/hammingball.py b/discs/samplers/hammingball.py
index 464d45c..987adf7 100644
--- a/discs/samplers/hammingball.py
+++ b/discs/samplers/hammingball.py
@@ -29,7 +29,9 @@ class HammingBallSampler(abstractsampler.AbstractSampler):
           * (self.num_categories - 1) ** (j + 1)
           for j in range(self.hamming)
       ]
-    self.hamming_logit = jnp.array(self.hamming_logit + num_samples_per_hamming)
+    self.hamming_logit = jnp.log(
+        jnp.array(self.hamming_logit + num_samples_per_hamming)
+    )
     self.choose_index_vmapped = jax.vmap(self.choose_index, in_axes=[0, None])
 
   def choose_index(self, rng, arr):
-- 
2.43.0


From 975acd4d7bb6882cb43e95fa66771a67ce5de9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:27 +0000
Subject: [PATCH 04/38] fix: non-adaptive categorical PAS omitted the value
 likelihood

The forward proposal log-likelihood lacked the probability of the chosen
values while the backward one included it, so detailed balance failed.
---
 discs/samplers/path_auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 36307ac..0d1fdac 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -125,6 +125,7 @@ class PAFSNoReplacement(PathAuxiliarySampler):
         rng, _ = jax.random.split(rng)
         new_val = jax.random.categorical(rng, val_logprob)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
+        ll_selected = ll_selected + jnp.sum(new_val * val_logprob, axis=-1)
       else:
         new_val = 1 - x[rows, selected_idx]
       y = x.at[rows, selected_idx].set(new_val)
-- 
2.43.0


From f221424011cd78e1f239df5d5c7120cdac9a25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:27 +0000
Subject: [PATCH 05/38] fix: DLMC/DMALA step size became NaN after rejected
 steps

n + 3 * (acc - target) can be negative, and clipping the log afterwards
does not remove the NaN. Clip n at one before taking the logarithm.
---
 discs/samplers/dlmc.py  | 2 +-
 discs/samplers/dmala.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 6bc7014..d4d599c 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -27,7 +27,7 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
 
     n = jnp.exp(state['log_tau'] + log_z)
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
+    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
     state['log_z'] = log_z
 
   def select_sample(
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 8145938..10a2081 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -28,7 +28,7 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     # updating tau
     n = jnp.exp(state['log_tau'] + log_z)
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
+    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
     state['log_z'] = log_z
 
   def select_sample(
-- 
2.43.0


From 7d5a34aefbe96c6c8e629280225d381bf13a8a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:42 +0000
Subject: [PATCH 06/38] fix: random walk sampler modified its input state and
 never counted steps

---
 discs/samplers/randomwalk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/samplers/randomwalk.py b/discs/samplers/randomwalk.py
index 7d06d76..c1c8419 100644
--- a/discs/samplers/randomwalk.py
+++ b/discs/samplers/randomwalk.py
@@ -1,6 +1,7 @@
 """Random Walk Sampler Class."""
 
 from discs.common import math_util as math
+from discs.common import utils
 from discs.samplers import abstractsampler
 import jax
 from jax import random
@@ -55,6 +56,7 @@ class RWSampler(RandomWalkSampler):
       self, rng, log_acc, current_sample, new_sample, sampler_state
   ):
     y, acc = math.mh_step(rng, log_acc, current_sample, new_sample)
+    sampler_state = self.update_sampler_state(utils.copy_pytree(sampler_state))
     sampler_state['num_ll_calls'] += 2
     sampler_state['acceptance_rate'] = jnp.mean(acc.astype(jnp.float32))
     return y.astype(jnp.int32), sampler_state
-- 
2.43.0


From 995317a5c0370ee02a14471a78bfad9abbf31626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:42 +0000
Subject: [PATCH 07/38] fix: Gibbs, block Gibbs and DLMC steps modified the
 state they were given

---
 discs/samplers/blockgibbs.py | 3 ++-
 discs/samplers/dlmc.py       | 2 ++
 discs/samplers/gibbs.py      | 3 ++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/blockgibbs.py b/discs/samplers/blockgibbs.py
index 2633d55..d406286 100644
--- a/discs/samplers/blockgibbs.py
+++ b/discs/samplers/blockgibbs.py
@@ -2,6 +2,7 @@
 
 from itertools import product
 from discs.common import math_util as math
+from discs.common import utils
 from discs.samplers import abstractsampler
 import jax
 from jax import random
@@ -67,7 +68,7 @@ class BlockGibbsSampler(abstractsampler.AbstractSampler):
     loglikelihood = get_ll_at_block(indices_to_flip, x, model_param)
     new_x = select_new_samples(rng, loglikelihood, x, indices_to_flip)
 
-    new_state = self.update_sampler_state(state)
+    new_state = self.update_sampler_state(utils.copy_pytree(state))
     return new_x, new_state, 1
 
 
diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index d4d599c..87dcede 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -1,6 +1,7 @@
 """DLMC Sampler."""
 
 from discs.common import math_util as math
+from discs.common import utils
 from discs.samplers import locallybalanced
 import jax
 import jax.numpy as jnp
@@ -88,6 +89,7 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
 
       log_tau = jnp.where(self.co_opt_prob, local_stats['log_tau'], log_tau)
     else:
+      state = utils.copy_pytree(state)
       state['log_tau'] = jnp.where(
           state['steps'] == 0,
           self.reset_stats(log_rate_x['weights'])['log_tau'],
diff --git a/discs/samplers/gibbs.py b/discs/samplers/gibbs.py
index aa475d4..de5505c 100644
--- a/discs/samplers/gibbs.py
+++ b/discs/samplers/gibbs.py
@@ -1,6 +1,7 @@
 """Gibbs sampler."""
 
 from discs.common import math_util as math
+from discs.common import utils
 from discs.samplers import abstractsampler
 import jax
 import jax.numpy as jnp
@@ -54,7 +55,7 @@ class GibbsSampler(abstractsampler.AbstractSampler):
 
     index = state['index']
     new_x = compute_next_x(rng, init_ll, x, index)
-    new_state = self.update_sampler_state(state)
+    new_state = self.update_sampler_state(utils.copy_pytree(state))
     return new_x, new_state, 1
 
 
-- 
2.43.0


From 2a082b407af59199c8727f37d9ce5944f5e4ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:07 +0000
Subject: [PATCH 08/38] fix: categorical FHMM took integer samples for one-hot
 when K == categories

---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 281ea16..38eae9f 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -163,7 +163,7 @@ class CategFHMM(FHMM):
     y = params['y']
     alpha = params['alpha']
 
-    if x.shape[-1] != self.num_categories:
+    if x[0].size == self.l * self.k:
       x = jax.nn.one_hot(x, self.num_categories)
     x = x.reshape(-1, self.l, self.k, self.num_categories)
     x_0 = x[:, 0]
-- 
2.43.0


From d00d10d239487a1739a8c4e1f300117d98b9d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:07 +0000
Subject: [PATCH 09/38] fix: categorical FHMM transition matrix was not
 row-stochastic

The off-diagonal mass was computed from the matrix under construction
instead of the configured self-transition probability.
---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 38eae9f..96bd9f2 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -97,7 +97,7 @@ class CategFHMM(FHMM):
     beta = jnp.eye(self.num_categories) * (
         self.beta - (1 - self.beta) / (self.num_categories - 1)
     )
-    beta += (1 - beta) / (self.num_categories - 1)
+    beta += (1 - self.beta) / (self.num_categories - 1)
     self.beta = beta
     self.log_beta = jnp.log(beta)
 
-- 
2.43.0


From b34cbd332c8f38ab6910251a9849710e5a2348ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:07 +0000
Subject: [PATCH 10/38] fix: Bernoulli.logratio_in_neighborhood did not follow
 the interface

The samplers unpack (log-likelihood, log-ratios, calls, neighbour fn) and
call the neighbour function with (params, x, idx).
---
 discs/models/bernoulli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discs/models/bernoulli.py b/discs/models/bernoulli.py
index 79ffe46..f7aada8 100644
--- a/discs/models/bernoulli.py
+++ b/discs/models/bernoulli.py
@@ -46,7 +46,7 @@ class Bernoulli(abstractmodel.AbstractModel):
     (_, loglikelihood), grad = jax.value_and_grad(fun, has_aux=True)(x)
     return loglikelihood, grad
 
-  def get_neighbor_fn(self, x, neighbhor_idx):
+  def get_neighbor_fn(self, _, x, neighbhor_idx):
     x_shape = x.shape
     x = jnp.reshape(x, (x.shape[0], -1))
     brange = jnp.arange(x.shape[0])
@@ -55,10 +55,11 @@ class Bernoulli(abstractmodel.AbstractModel):
     return jnp.reshape(y, x_shape)
 
   def logratio_in_neighborhood(self, params, x):
+    ll_x = self.forward(params, x)
     params = params['params']
     params = jnp.expand_dims(params, axis=0)
     diff = (1 - 2 * x) * params
-    return diff, 1, self.get_neighbor_fn
+    return ll_x, diff, 1, self.get_neighbor_fn
 
   def get_expected_val(self, params):
     params = params['params']
-- 
2.43.0


From 2440e8d66797cbc30dd1de31e25250e31c5b55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:07 +0000
Subject: [PATCH 11/38] fix: MIS.logratio_in_neighborhood ignored edge padding
 and the interface

Padded (0, 0) edges penalised node 0, and the log-likelihood of the sample
was missing from the returned tuple.
---
 discs/models/mis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discs/models/mis.py b/discs/models/mis.py
index 24123c9..54b01c4 100644
--- a/discs/models/mis.py
+++ b/discs/models/mis.py
@@ -43,7 +43,10 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
     edge_from = params['bidir_edge_from']
     edge_to = params['bidir_edge_to']
 
-    gather2dst = x[:, edge_to]
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
+
+    ll_x = self.forward(params, x)
+    gather2dst = x[:, edge_to] * edge_mask
     diff_penalty = self.penalty_coeff * gather2dst
     diff_arr = jnp.zeros(x.shape, dtype=diff_penalty.dtype)
     diff_arr = diff_arr.at[jnp.expand_dims(jnp.arange(x.shape[0]), axis=1),
@@ -52,7 +55,7 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
     sign = (1 - x * 2) * params['mask']
     logratio = (sign - sign * diff_arr) / params['temperature']
     logratio = logratio * params['mask'] + -1e9 * (1 - params['mask'])
-    return logratio, 1, self.get_neighbor_fn
+    return ll_x, logratio, 1, self.get_neighbor_fn
 
 
 def build_model(config):
-- 
2.43.0


From 291a737f0d26371e8ba15e0fcc8aa04ce41bd630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 12/38] fix: normcut node degrees followed node insertion
 order, unpadded

The degrees are indexed by node id and stacked over instances, so they have
to be ordered by id and padded to the common number of nodes.
---
 discs/graph_loader/normcut_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/graph_loader/normcut_loader.py b/discs/graph_loader/normcut_loader.py
index 9bea225..8765db8 100644
--- a/discs/graph_loader/normcut_loader.py
+++ b/discs/graph_loader/normcut_loader.py
@@ -26,7 +26,10 @@ class NormCutGen(data_common.GraphGenerator):
     )
     num_nodes = len(g)
     params['num_nodes'] = num_nodes
-    params['node_degrees'] = np.array(g.degree)[:, 1].astype(np.float32)
+    node_degrees = np.zeros((self.max_num_nodes,), dtype=np.float32)
+    for node, degree in g.degree:
+      node_degrees[node] = degree
+    params['node_degrees'] = node_degrees
     params['mask'] = np.arange(self.max_num_nodes) < num_nodes
     return params
 
-- 
2.43.0


From 67473443071d3025854f41e5abaec78c7746ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 13/38] fix: normcut balance penalty counted padding nodes

Partition sizes and their average are taken over the real nodes of each
instance, as given by the mask the loader provides.
---
 discs/models/normcut.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index d94e908..207c9bb 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -16,9 +16,8 @@ class NormCut(comb_ebm.CombEBM):
     self.num_nodes = self.config.max_num_nodes
     self.num_edges = self.config.max_num_edges
     self.num_categories = self.config.num_categories
-    self.avg_partition_size = self.num_nodes / self.num_categories
     if self.penalty > 0.0:
-      self.tolerance = self.num_nodes * self.config.tolerance
+      self.tolerance = self.config.tolerance
       self.stype = self.config.get('stype', 'span')
     self.eps = 1e-8
 
@@ -60,14 +59,18 @@ class NormCut(comb_ebm.CombEBM):
     cut_sizes = self.get_cut_sizes(params, x)
 
     if self.penalty > 0:
-      partition_sizes = jnp.sum(x, axis=1)
+      mask = jnp.expand_dims(params['mask'], 1)
+      num_nodes = jnp.sum(mask)
+      avg_partition_size = num_nodes / self.num_categories
+      tolerance = num_nodes * self.tolerance
+      partition_sizes = jnp.sum(x * mask, axis=1)
       if self.stype == 'quad':
-        ncost = jnp.sum((partition_sizes - self.avg_partition_size) ** 2, -1)
+        ncost = jnp.sum((partition_sizes - avg_partition_size) ** 2, -1)
       else:
         ub_cost = jax.nn.relu(
-            partition_sizes - self.avg_partition_size - self.tolerance) ** 2
+            partition_sizes - avg_partition_size - tolerance) ** 2
         lb_cost = jax.nn.relu(
-            self.avg_partition_size - self.tolerance - partition_sizes) ** 2
+            avg_partition_size - tolerance - partition_sizes) ** 2
         ncost = jnp.sum(ub_cost + lb_cost, axis=-1)
       cost = jnp.sum(cut_sizes, axis=-1) + self.penalty * ncost
     else:
-- 
2.43.0


From 853f5a94e0fc8b017f5df1b0aed18bc64ca3a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:14 +0000
Subject: [PATCH 14/38] fix: normcut log-ratios ignored the balance penalty and
 edge padding

logratio_in_neighborhood now uses the same cost as the objective and skips
the padded (0, 0) edges.
---
 discs/models/normcut.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index 207c9bb..536c178 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -53,17 +53,12 @@ class NormCut(comb_ebm.CombEBM):
     cut_sizes = jnp.sum(-edge_sum ** 2 + 2 * edge_sum, axis=1)
     return cut_sizes
 
-  def objective(self, params, x):
-    if x.ndim < 3:
-      x = jax.nn.one_hot(x, self.num_categories, dtype=jnp.float32)
-    cut_sizes = self.get_cut_sizes(params, x)
-
+  def get_cost(self, params, cut_sizes, partition_sizes, volume):
+    """Cost from the cut, size and volume of the partitions (last axis)."""
     if self.penalty > 0:
-      mask = jnp.expand_dims(params['mask'], 1)
-      num_nodes = jnp.sum(mask)
+      num_nodes = jnp.sum(params['mask'])
       avg_partition_size = num_nodes / self.num_categories
       tolerance = num_nodes * self.tolerance
-      partition_sizes = jnp.sum(x * mask, axis=1)
       if self.stype == 'quad':
         ncost = jnp.sum((partition_sizes - avg_partition_size) ** 2, -1)
       else:
@@ -74,10 +69,17 @@ class NormCut(comb_ebm.CombEBM):
         ncost = jnp.sum(ub_cost + lb_cost, axis=-1)
       cost = jnp.sum(cut_sizes, axis=-1) + self.penalty * ncost
     else:
-      volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
       cost = jnp.sum((cut_sizes + self.eps) / (volume + self.eps ** 2),
                      axis=-1)
-    return -cost
+    return cost
+
+  def objective(self, params, x):
+    if x.ndim < 3:
+      x = jax.nn.one_hot(x, self.num_categories, dtype=jnp.float32)
+    cut_sizes = self.get_cut_sizes(params, x)
+    partition_sizes = jnp.sum(x * jnp.expand_dims(params['mask'], 1), axis=1)
+    volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
+    return -self.get_cost(params, cut_sizes, partition_sizes, volume)
 
   def forward(self, params, x):
     obj = self.objective(params, x)
@@ -92,6 +94,7 @@ class NormCut(comb_ebm.CombEBM):
     edge_to = params['bidir_edge_to']
     node_degrees = jnp.expand_dims(params['node_degrees'], axis=1)
     gather2src = x[:, edge_from]
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
     gather2dst = x[:, edge_to]
     cur_edge_cut = (gather2src + gather2dst) % 2
     cur_cut_sizes = jnp.sum(cur_edge_cut, axis=1).astype(jnp.float32) / 2.0
@@ -100,6 +103,7 @@ class NormCut(comb_ebm.CombEBM):
     new_choices = jnp.expand_dims(new_choices, (0, 1))
     edge_info = (new_choices + jnp.expand_dims(gather2dst, axis=-2)) % 2
     edge_delta = edge_info - jnp.expand_dims(cur_edge_cut, axis=-2)
+    edge_delta = edge_delta * jnp.expand_dims(edge_mask, (1, 2))
     diff_arr = jnp.zeros(
         (bsize, self.num_nodes, self.num_categories, self.num_categories),
         dtype=jnp.int32)
@@ -112,10 +116,16 @@ class NormCut(comb_ebm.CombEBM):
         node_degrees, axis=-1)
     cur_volume = jnp.sum(x * node_degrees, axis=1)
     new_volume = jnp.expand_dims(cur_volume, (1, 2)) + diff_volume
-    new_obj = -jnp.sum((new_cut_sizes + self.eps) / (
-        new_volume + self.eps ** 2), axis=-1) / params['temperature']
-    cur_obj = -jnp.sum((cur_cut_sizes + self.eps) / (
-        cur_volume + self.eps ** 2), axis=-1) / params['temperature']
+
+    node_mask = jnp.expand_dims(params['mask'], axis=1)
+    cur_sizes = jnp.sum(x * node_mask, axis=1)
+    new_sizes = jnp.expand_dims(cur_sizes, (1, 2)) + (
+        new_choices - jnp.expand_dims(x, axis=-2)
+    ) * jnp.expand_dims(node_mask, axis=-1)
+    new_obj = -self.get_cost(
+        params, new_cut_sizes, new_sizes, new_volume) / params['temperature']
+    cur_obj = -self.get_cost(
+        params, cur_cut_sizes, cur_sizes, cur_volume) / params['temperature']
     log_ratio = new_obj - jnp.expand_dims(cur_obj, axis=(1, 2))
     return cur_obj, log_ratio, 1, None
 
-- 
2.43.0


From fffab9c1cb5a8a5e1906c875ae7bec93ecd8de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:30 +0000
Subject: [PATCH 15/38] fix: CO runs with fewer models than devices crashed or
 mixed models

The truth value of the index array is ambiguous for several models, and the
[device, model, chain] values were flattened as if models came first.
---
 discs/experiment/sampling.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9976209..abad58c 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -81,11 +81,6 @@ class Experiment:
           use_put_replicated = True
           bshape = (jax.local_device_count(), self.config.num_models)
           x_shape = bshape + (batch_size_per_device,) + self.config_model.shape
-          if self.sample_idx:
-            self.sample_idx = jnp.array(
-                [self.sample_idx]
-                * (jax.local_device_count() // self.config.num_models)
-            )
       else:
         bshape = (self.config.num_models,)
         x_shape = bshape + (self.config.batch_size,) + self.config_model.shape
@@ -501,6 +496,17 @@ class CO_Experiment(Experiment):
     obj_fn = jax.vmap(functools.partial(evaluator.evaluate, model=model))
     return obj_fn
 
+  def _group_by_model(self, val, bshape):
+    """Reshapes per-device values to [num_models, batch_size, ...]."""
+    if len(bshape) == 2:
+      if bshape[1] == self.config.num_models:
+        # every device runs a share of the chains of every model
+        val = jnp.swapaxes(val, 0, 1)
+      val = val.reshape(
+          (self.config.num_models, self.config.batch_size) + val.shape[3:]
+      )
+    return val
+
   def _build_temperature_schedule(self, config):
     """Temperature schedule."""
 
@@ -567,7 +573,7 @@ class CO_Experiment(Experiment):
 
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
-        eval_val = eval_val.reshape(self.config.num_models, -1)
+        eval_val = self._group_by_model(eval_val, bshape)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
         best_ratio = jnp.maximum(ratio, best_ratio)
@@ -579,11 +585,7 @@ class CO_Experiment(Experiment):
 
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
-          rnew_x = jnp.reshape(
-              new_x,
-              (self.config.num_models, self.config.batch_size)
-              + self.config_model.shape,
-          )
+          rnew_x = self._group_by_model(new_x, bshape)
           chosen_samples = jnp.take_along_axis(
               rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
           )
@@ -616,7 +618,7 @@ class CO_Experiment(Experiment):
       running_time += time.time() - start
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
-        eval_val = eval_val.reshape(self.config.num_models, -1)
+        eval_val = self._group_by_model(eval_val, bshape)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
         best_ratio = jnp.maximum(ratio, best_ratio)
@@ -628,11 +630,7 @@ class CO_Experiment(Experiment):
 
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
-          rnew_x = jnp.reshape(
-              new_x,
-              (self.config.num_models, self.config.batch_size)
-              + self.config_model.shape,
-          )
+          rnew_x = self._group_by_model(new_x, bshape)
           chosen_samples = jnp.take_along_axis(
               rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
           )
-- 
2.43.0


From 4b3c8b510244c77a9ea43f25054efdf61642c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:09 +0000
Subject: [PATCH 16/38] fix: CO runs kept only the last batch of instances

Every batch overwrote results.pkl; accumulate the instances of all batches,
and leave the padding entries out of the saved samples as well.
---
 discs/experiment/sampling.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index abad58c..256ac6d 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -474,6 +474,7 @@ class CO_Experiment(Experiment):
   """Class used to run annealing schedule for CO problems."""
 
   def get_results(self, model, sampler, evaluator, saver):
+    self.batch_results = []
     while True:
       if not self._get_chains_and_evaluations(model, sampler, evaluator, saver):
         break
@@ -647,10 +648,20 @@ class CO_Experiment(Experiment):
         hops.append(get_hop(x, new_x))
       x = new_x
 
-    if not (self.config.save_samples or self.config_model.name == 'normcut'):
+    if self.config.save_samples or self.config_model.name == 'normcut':
+      best_samples = best_samples[sample_mask]
+    else:
       best_samples = []
+    # the results file holds the instances of all the batches so far
+    self.batch_results.append(
+        (chain, best_ratio[sample_mask], running_time, best_samples)
+    )
+    chains, best_ratios, times, samples = zip(*self.batch_results)
     saver.save_co_resuts(
-        chain, best_ratio[sample_mask], running_time, best_samples
+        np.concatenate([np.array(c) for c in chains], axis=-1),
+        np.concatenate(best_ratios),
+        sum(times),
+        np.concatenate(samples),
     )
     saver.save_results(acc_ratios, hops, None, running_time)
 
-- 
2.43.0


From a4d1a91bebd909e5bf5ec13d416abfbcd4b55b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:09 +0000
Subject: [PATCH 17/38] fix: sampling runs with fewer than four chains crashed

---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 256ac6d..785a11c 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -228,7 +228,7 @@ class Sampling_Experiment(Experiment):
     selected_chains = jax.random.choice(
         rng,
         jnp.arange(self.config.batch_size),
-        shape=(self.num_saved_samples,),
+        shape=(min(self.num_saved_samples, self.config.batch_size),),
         replace=False,
     )
 
-- 
2.43.0


From 5c7e29fdf9a9bf46579633f6c2ea012676c7a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:09 +0000
Subject: [PATCH 18/38] fix: Bernoulli estimation-error runs crashed on a
 single device

Only the replicated parameters of a parallel run have a device axis.
---
 discs/experiment/sampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 785a11c..0632ac0 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -309,7 +309,10 @@ class Sampling_Experiment(Experiment):
       ):
         saver.dump_samples(samples, visualize=False)
         # samples= np.array(samples)
-        params = params['params'][0].reshape(self.config_model.shape)
+        params = params['params']
+        if self.parallel:
+          params = params[0]
+        params = params.reshape(self.config_model.shape)
         saver.dump_params(params)
         # saver.plot_estimation_error(model, params, samples)
 
-- 
2.43.0


From a59a436535897aae656e941704ec141ccda701d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:09 +0000
Subject: [PATCH 19/38] fix: text infilling could not evaluate its sentences

The evaluator works on strings, which cannot be jitted, and the resample
index prefix has more than one digit from the tenth resample on.
---
 discs/experiment/sampling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 0632ac0..93aa621 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -348,7 +348,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
   """Class used to sample sentences for text infilling."""
 
   def get_results(self, model, sampler, evaluator, saver):
-    obj_fn = jax.jit(evaluator.evaluate)
+    obj_fn = evaluator.evaluate
     infill_sents = []
     infill_sents_topk = []
     rnd_key = 0
@@ -400,9 +400,9 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       }
       topk_sentences = list(sorted_sent.keys())[-self.config.topk_num :]
       for i, sent in enumerate(topk_sentences):
-        topk_sentences[i] = sent[2:]
+        topk_sentences[i] = sent.split(' ', 1)[1]
       for i, sent in enumerate(sentences):
-        sentences[i] = sent[2:]
+        sentences[i] = sent.split(' ', 1)[1]
 
     return True, sentences, topk_sentences
 
-- 
2.43.0


From b94ed9219786e2a8c28c48c1ed567cab3dfb1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:09 +0000
Subject: [PATCH 20/38] fix: categorical RBM could not be built without loaded
 parameters

---
 discs/models/rbm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/models/rbm.py b/discs/models/rbm.py
index ce23179..099db06 100644
--- a/discs/models/rbm.py
+++ b/discs/models/rbm.py
@@ -130,6 +130,8 @@ class RBM(deep_ebm.DeepEBM):
       return self.params
     model_rng, sample_rng = jax.random.split(rng)
     v = self.get_init_samples(sample_rng, 1)
+    if self.num_categories != 2:
+      v = jax.nn.one_hot(v, self.num_categories)
     return self.net.init({'params': model_rng}, v=v)['params']
 
   def forward(self, params, x):
@@ -194,7 +196,7 @@ class CategoricalRBM(RBM):
     if data_mean is None:
       return functools.partial(
           jax.random.categorical,
-          logits=jnp.log(jnp.ones(self.num_visible, self.num_categories)),
+          logits=jnp.zeros((self.num_visible, self.num_categories)),
       )
     else:
       logits = jnp.log(data_mean)
-- 
2.43.0


From cefe4c2401d80ea62a0bc0023ac1c0cb765b6f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:09 +0000
Subject: [PATCH 21/38] fix: saver labelled non-adaptive samplers as adaptive

Also use the save directory for visualised samples; root_path was undefined.
---
 discs/common/experiment_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index ea7c0d2..aa67f1b 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -53,7 +53,7 @@ class Saver:
 
     results = {}
     results['sampler'] = self.config.sampler.name
-    if 'adaptive' in self.config.sampler.keys():
+    if self.config.sampler.get('adaptive', False):
       results['sampler'] = f'a_{self.config.sampler.name}'
 
     if 'solver' in self.config.sampler.keys():
@@ -114,7 +114,7 @@ class Saver:
         for chain in range(samples.shape[0]):
           img = samples[chain]
           image_path = os.path.join(
-              root_path, f'sample_{step}_of_chain_{chain}.jpeg'
+              self.save_dir, f'sample_{step}_of_chain_{chain}.jpeg'
           )
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
-- 
2.43.0


From 70ba32f422596ac86446881576a5c99e6064909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:01 +0000
Subject: [PATCH 22/38] fix: Potts energy truncated the couplings for integer
 one-hot samples

---
 discs/models/potts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/potts.py b/discs/models/potts.py
index efacb15..ba80ce7 100644
--- a/discs/models/potts.py
+++ b/discs/models/potts.py
@@ -63,7 +63,7 @@ class Potts(abstractmodel.AbstractModel):
     w_h = params[0][:, :-1, :]
     w_v = params[1][:-1, :, :]
 
-    loglikelihood = jnp.zeros_like(x)
+    loglikelihood = jnp.zeros(x.shape, dtype=w_h.dtype)
     loglikelihood = loglikelihood.at[:, :, :-1].set(
         loglikelihood[:, :, :-1] + x[:, :, 1:] * w_h
     )  # right
-- 
2.43.0


From b3646b60b22eb45a726ae88ebd6652aa3fbc8ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:35 +0000
Subject: [PATCH 23/38] fix: ESS evaluation failed where tensorflow_probability
 does not preload its jax substrate

---
 discs/evaluators/ess_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/evaluators/ess_eval.py b/discs/evaluators/ess_eval.py
index 63525de..1ab4576 100644
--- a/discs/evaluators/ess_eval.py
+++ b/discs/evaluators/ess_eval.py
@@ -3,7 +3,7 @@
 from discs.evaluators import abstractevaluator
 import jax.numpy as jnp
 import tensorflow as tf
-import tensorflow_probability as tfp
+from tensorflow_probability.substrates import jax as tfp
 
 class ESSevaluator(abstractevaluator.AbstractEvaluator):
   """ESS evaluator class."""
@@ -34,7 +34,7 @@ class ESSevaluator(abstractevaluator.AbstractEvaluator):
     """Computes the mean ESS over the chains."""
     mapped_samples = mapped_samples.astype(jnp.float32)
     tf.config.experimental.enable_tensor_float_32_execution(False)
-    ess_of_chains = tfp.substrates.jax.mcmc.effective_sample_size(
+    ess_of_chains = tfp.mcmc.effective_sample_size(
         mapped_samples
     )
     ess_of_chains = jnp.nan_to_num(ess_of_chains, nan=1.0)
-- 
2.43.0


From eb1c6c88619bbb86b435824825210b7a8d8a9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:02 +0000
Subject: [PATCH 24/38] fix: normcut evaluation read samples in node insertion
 order and skipped weighted edges

Samples are indexed by node label (the graph loader builds the edge list from
node labels), but the adjacency matrix followed the insertion order of the
nodes in the pickled graph and held edge weights, of which only those equal to
one were counted.
---
 discs/common/normcut_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/normcut_evaluator.py b/discs/common/normcut_evaluator.py
index d8b085c..aa7cd11 100644
--- a/discs/common/normcut_evaluator.py
+++ b/discs/common/normcut_evaluator.py
@@ -191,7 +191,7 @@ def main(argv) -> None:
       results = pickle.load(f)
       x = results['best_samples'][0]
       x = np.array(x).astype(int)
-      adj_mat = nx.to_numpy_array(g)
+      adj_mat = nx.to_numpy_array(g, nodelist=sorted(g.nodes()), weight=None)
       cr, bl, message = evaluate(x, len(g), len(g.edges()) * 2, adj_mat, ng)
       print(message)
       print(res_dic['name'])
-- 
2.43.0


From 7b0b2896dd2f9c375440750cbf882c0fbc8da4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:48 +0000
Subject: [PATCH 25/38] fix: optsicom sweep jobs could not start

The sweep asked for config.experiment.num_models, which the experiment
configuration does not have (the flag is rejected) and which the main script
replaces by the number of models of the model configuration anyway. The ten
graphs per batch are now requested there.
---
 discs/models/configs/maxcut/optsicom.py               | 2 +-
 discs/run_configs/co/maxcut/optsicom_sampler_sweep.py | 4 ----
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/discs/models/configs/maxcut/optsicom.py b/discs/models/configs/maxcut/optsicom.py
index dc32570..cec7727 100644
--- a/discs/models/configs/maxcut/optsicom.py
+++ b/discs/models/configs/maxcut/optsicom.py
@@ -8,7 +8,7 @@ def get_model_config(cfg_str):
   num_nodes = num_edges = 0
   rand_type = extra_cfg['r']
   model_config = dict(
-      num_models=1,
+      num_models=10,
       max_num_nodes=num_nodes,
       max_num_edges=num_edges,
       num_categories=2,
diff --git a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
index e66ae1a..b7d96e1 100644
--- a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
+++ b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
@@ -20,11 +20,9 @@ def get_config():
                       'r-b',
                   ],
                   'config.experiment.log_every_steps': [100],
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dmala',
@@ -39,7 +37,6 @@ def get_config():
                   ],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'gwg',
@@ -54,7 +51,6 @@ def get_config():
                   'sampler_config.adaptive': [False],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dlmc',
-- 
2.43.0


From f4946df38f01b43518100a9a2a6f29282a05bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:17 +0000
Subject: [PATCH 26/38] fix: text infilling energy never masked the scored
 position

The one-hot row of the [MASK] token was written at row 1 of an array with a
single row, a write jax drops, so each position was scored given an all-zero
embedding in its place instead of [MASK].
---
 discs/models/text_infilling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/text_infilling.py b/discs/models/text_infilling.py
index ef769eb..c909a1a 100644
--- a/discs/models/text_infilling.py
+++ b/discs/models/text_infilling.py
@@ -122,7 +122,7 @@ class TextInfilling(abstractmodel.AbstractModel):
     x = jnp.where(x.shape[0] == len(self.infill_pos), jnp.array([x]), x)
 
     mask_dummy_array = jnp.zeros([1, self.num_categories])
-    mask_dummy_array = mask_dummy_array.at[1, self.mask_token].set(1.0)
+    mask_dummy_array = mask_dummy_array.at[0, self.mask_token].set(1.0)
     loglikelihood = 0.0
     for i in range(0, len(self.infill_pos)):
       x_new = x.at[:, i, :].set(mask_dummy_array)
-- 
2.43.0


From 4cf00a7f6fe1ea2bbce80a233538fedf6023b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:17 +0000
Subject: [PATCH 27/38] fix: every text infilling task was sampled with the
 same random numbers

The per-task random key was handed down but the constant 0 was used.
---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 93aa621..83b0282 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -375,7 +375,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       self, model, sampler, evaluator, saver, rnd_key=0
   ):
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False, None, None
-- 
2.43.0


From 2e8bd00698ab97de048adbf472df6aab2ff8a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:30 +0000
Subject: [PATCH 28/38] fix: text infilling could not be imported with current
 jax releases

jaxlib removed DeviceArray; it was only used in type annotations.
---
 discs/common/customized_huggingface_flax_bert.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/discs/common/customized_huggingface_flax_bert.py b/discs/common/customized_huggingface_flax_bert.py
index b7f68b4..f515f85 100644
--- a/discs/common/customized_huggingface_flax_bert.py
+++ b/discs/common/customized_huggingface_flax_bert.py
@@ -21,7 +21,6 @@ import flax
 import flax.linen as nn
 import jax
 import jax.numpy as jnp
-import jaxlib.xla_extension as jax_xla
 from flax.core.frozen_dict import FrozenDict
 from flax.linen.attention import dot_product_attention_weights
 from jax import lax
@@ -78,10 +77,10 @@ class FlaxBertForPreTrainingOutput(ModelOutput):
             heads.
     """
 
-    prediction_logits: jax_xla.DeviceArray = None
-    seq_relationship_logits: jax_xla.DeviceArray = None
-    hidden_states: Optional[Tuple[jax_xla.DeviceArray]] = None
-    attentions: Optional[Tuple[jax_xla.DeviceArray]] = None
+    prediction_logits: jnp.ndarray = None
+    seq_relationship_logits: jnp.ndarray = None
+    hidden_states: Optional[Tuple[jnp.ndarray]] = None
+    attentions: Optional[Tuple[jnp.ndarray]] = None
 
 
 BERT_START_DOCSTRING = r"""
-- 
2.43.0


From d19216089d7e13dd0bbf14d2dc1af17b5f9ef200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:02 +0000
Subject: [PATCH 29/38] fix: DLMC and DMALA acceptance and step size became NaN
 on steep targets

Compiled, 1 - dist + 1e-32 is folded to 1 - dist, and minus infinity times
zero is NaN, so a flip proposed with probability one could never be accepted;
the same product appeared for categories of probability zero. The DMALA
normaliser and the expected number of flips overflowed.
---
 discs/samplers/dlmc.py  | 41 +++++++++++++++++++++++++++--------------
 discs/samplers/dmala.py | 28 +++++++++++++---------------
 2 files changed, 40 insertions(+), 29 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 87dcede..8a02ae1 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -26,9 +26,13 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
     logs_ema = jnp.where(cur_step < self.schedule_step, 0, 1)
     log_z = (logs_ema * log_z) + ((1 - logs_ema) * local_stats['log_z'])
 
-    n = jnp.exp(state['log_tau'] + log_z)
-    n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
+    log_n = state['log_tau'] + log_z
+    n = jnp.exp(log_n) + 3 * (acc - self.target_acceptance_rate)
+    # a change of n too large for exp is far below its precision
+    log_n = jnp.where(
+        jnp.isfinite(n), jnp.log(jnp.clip(n, a_min=1.0)), log_n
+    )
+    state['log_tau'] = log_n - log_z
     state['log_z'] = log_z
 
   def select_sample(
@@ -140,7 +144,8 @@ class BinaryDLMC(DLMCSampler):
 
   def get_ll_onestep(self, dist, aux):
     return jnp.sum(
-        jnp.log(dist + 1e-32) * aux + jnp.log(1 - dist + 1e-32) * (1 - aux),
+        jnp.log(jnp.clip(dist, a_min=1e-32)) * aux
+        + jnp.log(jnp.clip(1 - dist, a_min=1e-32)) * (1 - aux),
         axis=range(1, dist.ndim),
     )
 
@@ -160,16 +165,22 @@ class CategoricalDLMC(DLMCSampler):
     else:
       raise ValueError('Unknown solver for DLMC: %s' % self.solver)
 
-    log_posterior_x = log_posterior_x * (1 - x) + x * jnp.clip(
-        jnp.log1p(
-            -jnp.clip(
-                jnp.sum(
-                    jnp.exp(log_posterior_x) * (1 - x), axis=-1, keepdims=True
-                ),
-                a_max=1 - 1e-12,
-            )
+    log_posterior_x = jnp.where(
+        x > 0,
+        jnp.clip(
+            jnp.log1p(
+                -jnp.clip(
+                    jnp.sum(
+                        jnp.exp(log_posterior_x) * (1 - x),
+                        axis=-1,
+                        keepdims=True,
+                    ),
+                    a_max=1 - 1e-12,
+                )
+            ),
+            a_min=log_nu_x,
         ),
-        a_min=log_nu_x,
+        log_posterior_x,
     )
     return log_posterior_x
 
@@ -180,7 +191,9 @@ class CategoricalDLMC(DLMCSampler):
 
   def get_ll_onestep(self, dist, aux):
     dist_ll = jax.nn.log_softmax(dist)
-    ll_aux = jnp.sum(dist_ll * aux, axis=range(1, dist.ndim))
+    ll_aux = jnp.sum(
+        jnp.where(aux > 0, dist_ll, 0.0), axis=range(1, dist.ndim)
+    )
     return ll_aux
 
 
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 10a2081..700e511 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -26,9 +26,13 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     log_z = (logs_ema * log_z) + ((1 - logs_ema) * local_stats['log_z'])
 
     # updating tau
-    n = jnp.exp(state['log_tau'] + log_z)
-    n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
+    log_n = state['log_tau'] + log_z
+    n = jnp.exp(log_n) + 3 * (acc - self.target_acceptance_rate)
+    # a change of n too large for exp is far below its precision
+    log_n = jnp.where(
+        jnp.isfinite(n), jnp.log(jnp.clip(n, a_min=1.0)), log_n
+    )
+    state['log_tau'] = log_n - log_z
     state['log_z'] = log_z
 
   def select_sample(
@@ -41,17 +45,8 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     self.update_sampler_state(new_state, acc, local_stats)
     return y, new_state
 
-  def set_z(self, log_rates):
-    if self.num_categories > 2:
-      log_rates = log_rates.reshape(log_rates.shape[0], -1, self.num_categories)
-      log_z = jnp.mean(jnp.sum(jnp.exp(log_rates), axis=[-2, -1]))
-    else:
-      log_rates = log_rates.reshape(log_rates.shape[0], -1)
-      log_z = jnp.mean(jnp.sum(jnp.exp(log_rates), axis=[-1]))
-    return log_z
-
   def reset_stats(self, log_rates):
-    log_z = jnp.log(self.set_z(log_rates))
+    log_z = special.logsumexp(log_rates) - math.log(log_rates.shape[0])
     log_tau = math.log(3.0) - log_z
     return {'log_tau': log_tau, 'log_z': log_z}
 
@@ -134,7 +129,8 @@ class BinaryDMALA(DMALASampler):
 
   def get_ll_onestep(self, dist, aux):
     return jnp.sum(
-        jnp.log(dist + 1e-32) * aux + jnp.log(1 - dist + 1e-32) * (1 - aux),
+        jnp.log(jnp.clip(dist, a_min=1e-32)) * aux
+        + jnp.log(jnp.clip(1 - dist, a_min=1e-32)) * (1 - aux),
         axis=range(1, dist.ndim),
     )
 
@@ -156,7 +152,9 @@ class CategoricalDMALA(DMALASampler):
 
   def get_ll_onestep(self, dist, aux):
     dist_ll = jax.nn.log_softmax(dist)
-    ll_aux = jnp.sum(dist_ll * aux, axis=range(1, dist.ndim))
+    ll_aux = jnp.sum(
+        jnp.where(aux > 0, dist_ll, 0.0), axis=range(1, dist.ndim)
+    )
     return ll_aux
 
 
-- 
2.43.0


From 351cbc2257cf407328c0d3db8cf0323a8d08ae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:47 +0000
Subject: [PATCH 30/38] fix: DLMC/DMALA adaptation dropped the initial step
 size

---
 discs/samplers/dlmc.py  | 8 +++++---
 discs/samplers/dmala.py | 8 ++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 8a02ae1..5331e47 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -87,11 +87,13 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
     ll_x, log_rate_x = self.get_value_and_rates(model, model_param, x)
     if self.adaptive:
       local_stats = self.reset_stats(log_rate_x['weights'])
-      log_tau = jnp.where(
+      state = utils.copy_pytree(state)
+      state['log_tau'] = jnp.where(
           state['steps'] == 0, local_stats['log_tau'], state['log_tau']
       )
-
-      log_tau = jnp.where(self.co_opt_prob, local_stats['log_tau'], log_tau)
+      log_tau = jnp.where(
+          self.co_opt_prob, local_stats['log_tau'], state['log_tau']
+      )
     else:
       state = utils.copy_pytree(state)
       state['log_tau'] = jnp.where(
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 700e511..d856962 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -1,6 +1,7 @@
 """DMALA Sampler."""
 
 from discs.common import math_util as math
+from discs.common import utils
 from discs.samplers import locallybalanced
 import jax
 import jax.numpy as jnp
@@ -85,10 +86,13 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     ll_x, log_rate_x = self.get_value_and_rates(model, model_param, x)
     if self.adaptive:
       local_stats = self.reset_stats(log_rate_x['weights'])
-      log_tau = jnp.where(
+      state = utils.copy_pytree(state)
+      state['log_tau'] = jnp.where(
           state['steps'] == 0, local_stats['log_tau'], state['log_tau']
       )
-      log_tau = jnp.where(self.co_opt_prob, local_stats['log_tau'], log_tau)
+      log_tau = jnp.where(
+          self.co_opt_prob, local_stats['log_tau'], state['log_tau']
+      )
     else:
       local_stats = None
       log_tau = -1 /(2 * self.step_size)
-- 
2.43.0


From fdaf7f991ac8bb138a7d55ba78e4ead34fc99b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 31/38] fix: training scripts imported a module that does not
 exist

---
 discs/learning/binary_ebm/main_binary_training.py | 2 +-
 discs/learning/rbm/main_rbm_training.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/learning/binary_ebm/main_binary_training.py b/discs/learning/binary_ebm/main_binary_training.py
index 3219d7a..a713f49 100644
--- a/discs/learning/binary_ebm/main_binary_training.py
+++ b/discs/learning/binary_ebm/main_binary_training.py
@@ -9,7 +9,7 @@ from flax import jax_utils
 from flax.core.frozen_dict import unfreeze
 
 from discs.common import data_loader
-from discs.common import plot
+from discs.plot_results import plot
 from discs.common import utils
 from discs.learning import replay_buffer
 from discs.learning import train
diff --git a/discs/learning/rbm/main_rbm_training.py b/discs/learning/rbm/main_rbm_training.py
index dc42db2..c72595b 100644
--- a/discs/learning/rbm/main_rbm_training.py
+++ b/discs/learning/rbm/main_rbm_training.py
@@ -8,7 +8,7 @@ from absl import flags
 
 from discs.common import data_loader
 from discs.common import utils
-from discs.common import plot
+from discs.plot_results import plot
 from discs.learning import train
 from discs.models import rbm
 from discs.samplers.blockgibbs import RBMBlockGibbsSampler
-- 
2.43.0


From 66911d242f19c3e2cd61e4937ad4bb183b8a9293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 32/38] fix: RBM training could not start without two GPUs

---
 discs/learning/rbm/main_rbm_training.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/learning/rbm/main_rbm_training.py b/discs/learning/rbm/main_rbm_training.py
index c72595b..c69fb01 100644
--- a/discs/learning/rbm/main_rbm_training.py
+++ b/discs/learning/rbm/main_rbm_training.py
@@ -22,8 +22,8 @@ import tensorflow as tf
 import tensorflow_datasets as tfds
 import pickle
 physical_devices = tf.config.list_physical_devices('GPU')
-tf.config.experimental.set_memory_growth(physical_devices[0], True)
-tf.config.experimental.set_memory_growth(physical_devices[1], True)
+for physical_device in physical_devices:
+  tf.config.experimental.set_memory_growth(physical_device, True)
 
 
 _CONFIG = config_flags.DEFINE_config_file('config')
-- 
2.43.0


From cb554c6433045ea61003646c5f3e2634dd63af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 33/38] fix: training failed at the first checkpoint with a
 relative folder

---
 discs/learning/train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/learning/train.py b/discs/learning/train.py
index b11b3bf..c145e2c 100644
--- a/discs/learning/train.py
+++ b/discs/learning/train.py
@@ -148,7 +148,7 @@ class Trainer(abc.ABC):
     global_update_fn = jax.pmap(self.global_update_fn, axis_name='shard')
     exp_config = self.config.experiment
     lr_schedule = build_lr_schedule(exp_config)
-    ckpt_folder = os.path.join(exp_config.save_root, 'ckpts')
+    ckpt_folder = os.path.abspath(os.path.join(exp_config.save_root, 'ckpts'))
     init_step = shared_state.step
     shared_state = jax_utils.replicate(shared_state)
     process_rng_key = jax.random.fold_in(global_key, jax.process_index())
-- 
2.43.0


From 07873999141f4161b34a6a105e23074344996f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 34/38] fix: image energy was not finite where the data mean is
 one

---
 discs/models/resnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/resnet.py b/discs/models/resnet.py
index a513594..e0a0b2b 100644
--- a/discs/models/resnet.py
+++ b/discs/models/resnet.py
@@ -114,7 +114,7 @@ class ImageEBM(deep_ebm.DeepEBM):
     energy = self.net.apply({'params': params}, x=x)
     if self.data_mean is not None:
       base_logprob = x * jnp.log(self.data_mean + 1e-20) + (
-          1 - x) * jnp.log1p(-self.data_mean + 1e-20)
+          1 - x) * jnp.maximum(jnp.log1p(-self.data_mean), jnp.log(1e-20))
       base_energy = jnp.sum(base_logprob, axis=-1)
       energy = energy + base_energy
       if 'temperature' in params:  # for the use of AIS
-- 
2.43.0


From 72e83d4250f6d9cea6fc998afada356b0a8b7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 35/38] fix: curves over time failed for some numbers of
 recorded points

---
 discs/plot_results/plot_co_through_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_co_through_time.py b/discs/plot_results/plot_co_through_time.py
index ddefc1a..f481fe6 100644
--- a/discs/plot_results/plot_co_through_time.py
+++ b/discs/plot_results/plot_co_through_time.py
@@ -58,7 +58,7 @@ def plot_graph_cluster(key, dict_results, indeces):
       )
 
       if x_label != 'Steps':
-        x = np.arange(0, 1, (1 / len(x))) * float(
+        x = (np.arange(len(x)) / len(x)) * float(
             result['results']['running_time']
         )
 
-- 
2.43.0


From 32a98e6317e7d4a882c0c0c6a15a456a90e6ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 36/38] fix: ESS figures cut digits off the results of runs on
 one device

---
 discs/plot_results/plot_results.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index ba7a051..289c591 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -370,11 +370,9 @@ def save_result_as_csv(all_mapped_names, dir_name):
         writer.writerow(data)
 
 def extract_floats(string_of_numbers):
-  string_of_numbers = string_of_numbers[2:-2].strip()
-  gap = string_of_numbers.find(' ')
-  f1 = float(string_of_numbers[0:gap])
-  f2 = float(string_of_numbers[gap + 1 :])
-  return [f1, f2]
+  # one bracket for a run on a single device, two for a parallel run.
+  f1, f2 = string_of_numbers.replace('[', '').replace(']', '').split()
+  return [float(f1), float(f2)]
 
 
 def main(argv) -> None:
-- 
2.43.0


From 1b844692406b65596ac814a4a93e03513624ce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 37/38] fix: ESS figures showed runs at the wrong setting when
 a run is unfinished

---
 discs/plot_results/plot_results.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index 289c591..62bd2fd 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -416,6 +416,13 @@ def main(argv) -> None:
         filename = open(filename, 'r')
       except:
         # The experiment has not been completed, we append 0.
+        res_dic['results'] = {
+            'ess_ee': 0.0,
+            'ess_ee_std': 0.0,
+            'ess_clock': 0.0,
+            'ess_clock_std': 0.0,
+        }
+        experiments_results.append(res_dic)
         continue
       file = csv.DictReader(filename)
       results = {}
-- 
2.43.0


From fa0c82794363c9bf8c170f6235afe6dafcb52e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 38/38] fix: ESS figures by sampler failed when init_sigma is
 not swept

---
 discs/plot_results/plot_results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index 62bd2fd..431b4bb 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -159,16 +159,18 @@ def plot_graph_cluster(num, res_cluster, key_diff, xticks):
     else:
       if model == 'Bernoulli':
         splits = str.split(save_title, ',')
+        sigma = 'dummy'
         for split in splits:
           if split.startswith('init_sigma'):
             sigma = str.split(split, '=')[1]
             break
         if sigma == '0.5':
           plt.title(f'High temperature {model}', fontsize=18)
-        else:
+        elif sigma != 'dummy':
           plt.title(f'Low temperature {model}', fontsize=18)
       elif model == 'Ising':
         splits = str.split(save_title, ',')
+        sigma = 'dummy'
         for split in splits:
           if split.startswith('init_sigma'):
             sigma = str.split(split, '=')[1]
-- 
2.43.0

