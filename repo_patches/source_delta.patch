From 649b24115a64bcfba47a25225281e898795fdb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 001/105] fix: keep prior dictionary caches and key order in
 step with the contents

---
 bilby/core/prior/dict.py | 49 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 3722c62..06035b8 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -53,6 +53,45 @@ class PriorDict(dict):
         else:
             self.conversion_function = self.default_conversion_function
 
+    def _contents_changed(self):
+        """Discard everything which was computed from the previous contents"""
+        self._cached_normalizations = {}
+
+    def __setitem__(self, key, value):
+        super(PriorDict, self).__setitem__(key, value)
+        self._contents_changed()
+
+    def __delitem__(self, key):
+        super(PriorDict, self).__delitem__(key)
+        self._contents_changed()
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def update(self, *args, **kwargs):
+        super(PriorDict, self).update(*args, **kwargs)
+        self._contents_changed()
+
+    def setdefault(self, key, default=None):
+        value = super(PriorDict, self).setdefault(key, default)
+        self._contents_changed()
+        return value
+
+    def pop(self, *args):
+        value = super(PriorDict, self).pop(*args)
+        self._contents_changed()
+        return value
+
+    def popitem(self):
+        item = super(PriorDict, self).popitem()
+        self._contents_changed()
+        return item
+
+    def clear(self):
+        super(PriorDict, self).clear()
+        self._contents_changed()
+
     def evaluate_constraints(self, sample):
         out_sample = self.conversion_function(sample)
         prob = 1
@@ -704,6 +743,8 @@ class ConditionalPriorDict(PriorDict):
         self._resolved = True
         if len(conditional_keys_unsorted) != 0:
             self._resolved = False
+        # the indexes belong to the previous order of the keys
+        self._least_recently_rescaled_keys = []
 
     def _check_conditions_resolved(self, key, sampled_keys):
         """Checks if all required variables have already been sampled so we can sample this key"""
@@ -893,12 +934,8 @@ class ConditionalPriorDict(PriorDict):
             if not isinstance(self[key], (DeltaFunction, Constraint))
         ]
 
-    def __setitem__(self, key, value):
-        super(ConditionalPriorDict, self).__setitem__(key, value)
-        self._resolve_conditions()
-
-    def __delitem__(self, key):
-        super(ConditionalPriorDict, self).__delitem__(key)
+    def _contents_changed(self):
+        super(ConditionalPriorDict, self)._contents_changed()
         self._resolve_conditions()
 
 
-- 
2.43.0


From 1f3978155d1149b0c273a1842a1b651e8a292877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 002/105] fix: refresh fixed parameters' values on each
 conditional evaluation

---
 bilby/core/prior/dict.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 06035b8..ac4e44c 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -769,7 +769,10 @@ class ConditionalPriorDict(PriorDict):
             )
         samples = dict()
         for key in subset_dict.sorted_keys:
-            if key not in keys or isinstance(self[key], Constraint):
+            if isinstance(self[key], Constraint):
+                continue
+            if key not in keys:
+                subset_dict._set_fixed_value(key)
                 continue
             if isinstance(self[key], Prior):
                 try:
@@ -885,12 +888,16 @@ class ConditionalPriorDict(PriorDict):
         theta = list(theta)
         self._check_resolved()
         self._update_rescale_keys(keys)
+        indexes = dict(
+            zip(self.sorted_keys_without_fixed_parameters, self._rescale_indexes)
+        )
         result = dict()
-        for key, index in zip(
-            self.sorted_keys_without_fixed_parameters, self._rescale_indexes
-        ):
+        for key in self.sorted_keys:
+            if key not in indexes:
+                self._set_fixed_value(key)
+                continue
             result[key] = self[key].rescale(
-                theta[index], **self.get_required_variables(key)
+                theta[indexes[key]], **self.get_required_variables(key)
             )
             self[key].least_recently_sampled = result[key]
         return list(flatten([result[key] for key in keys]))
@@ -907,6 +914,22 @@ class ConditionalPriorDict(PriorDict):
         self._check_resolved()
         for key, value in zip(keys, theta):
             self[key].least_recently_sampled = value
+        known = set(keys)
+        for key in self.sorted_keys:
+            if key not in known and known.issuperset(
+                getattr(self[key], "required_variables", [])
+            ):
+                if self._set_fixed_value(key):
+                    known.add(key)
+
+    def _set_fixed_value(self, key):
+        """Restore the value of a fixed parameter for the parameters depending on it"""
+        if isinstance(self[key], DeltaFunction):
+            self[key].least_recently_sampled = self[key].rescale(
+                0.5, **self.get_required_variables(key)
+            )
+            return True
+        return False
 
     def _check_resolved(self):
         if not self._resolved:
-- 
2.43.0


From bdd0e3dad9673d026fee4b7a674bef2d3b084798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 003/105] fix: keep the conversion function when copying a
 prior dictionary

---
 bilby/core/prior/dict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index ac4e44c..158ed75 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -684,7 +684,11 @@ class PriorDict(dict):
         We have to overwrite the copy method as it fails due to the presence of
         defaults.
         """
-        return self.__class__(dictionary=dict(self))
+        new = self.__class__(dictionary=dict(self))
+        default = type(self).default_conversion_function
+        if getattr(self.conversion_function, "__func__", None) is not default:
+            new.conversion_function = self.conversion_function
+        return new
 
 
 class PriorDictException(Exception):
-- 
2.43.0


From 5f886cb053acbea43e50bb127b0551dbe3ed9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 004/105] fix: leave the caller's list of keys alone when
 sampling with constraints

---
 bilby/core/prior/dict.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 158ed75..a9c5bcc 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -431,9 +431,10 @@ class PriorDict(dict):
         array: array_like
             An array of shape (len(key), size) of the samples (ordered by keys)
         """
+        keys = list(keys)
         samples_dict = self.sample_subset_constrained(keys=keys, size=size)
         samples_dict = {key: np.atleast_1d(val) for key, val in samples_dict.items()}
-        samples_list = [samples_dict[key] for key in keys]
+        samples_list = [samples_dict[key] for key in keys if key in samples_dict]
         return np.array(samples_list)
 
     def sample_subset(self, keys=iter([]), size=None):
@@ -487,9 +488,7 @@ class PriorDict(dict):
                     return sample
         else:
             needed = np.prod(size)
-            for key in keys.copy():
-                if isinstance(self[key], Constraint):
-                    del keys[keys.index(key)]
+            keys = [key for key in keys if not isinstance(self[key], Constraint)]
             all_samples = {key: np.array([]) for key in keys}
             _first_key = list(all_samples.keys())[0]
             while len(all_samples[_first_key]) < needed:
-- 
2.43.0


From 6728a4d05b6dd9ef9beeb4c57b2460dd60646657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 005/105] fix: pass all element-wise samples on to the
 parameters depending on them

---
 bilby/core/prior/dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index a9c5bcc..3046375 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -789,9 +789,12 @@ class ConditionalPriorDict(PriorDict):
                     samples[key] = np.zeros(size)
                     for i in range(size):
                         rvars = {
-                            key: value[i] for key, value in required_variables.items()
+                            name: value[i] if np.ndim(value) else value
+                            for name, value in required_variables.items()
                         }
                         samples[key][i] = subset_dict[key].sample(**rvars)
+                    # parameters depending on this one need all of its samples
+                    subset_dict[key].least_recently_sampled = samples[key]
             else:
                 logger.debug("{} not a known prior.".format(key))
         return samples
-- 
2.43.0


From 8f703cb4422dc10b57eb7d34f1ce30a60578dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 006/105] fix: apply all bounds of a joint prior to arrays of
 samples

---
 bilby/core/prior/joint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 43c8913..f44a1f4 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -209,11 +209,9 @@ class BaseJointPriorDist(object):
             raise ValueError("Array is the wrong shape")
 
         # check sample(s) is within bounds
-        outbounds = np.ones(samp.shape[0], dtype=bool)
+        outbounds = np.zeros(samp.shape[0], dtype=bool)
         for s, bound in zip(samp.T, self.bounds.values()):
-            outbounds = (s < bound[0]) | (s > bound[1])
-            if np.any(outbounds):
-                break
+            outbounds |= (s < bound[0]) | (s > bound[1])
         return samp, outbounds
 
     def ln_prob(self, value):
-- 
2.43.0


From 04859bc88cf985779c1b3fe89a0e58b2aa56c957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 007/105] fix: forget a joint prior request which is refused

---
 bilby/core/prior/joint.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index f44a1f4..10cfe29 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -861,6 +861,9 @@ class JointPrior(Prior):
             # all required parameters have been set
             values = list(self.dist.requested_parameters.values())
 
+            # reset the requested parameters, also if they are refused below
+            self.dist.reset_request()
+
             # check for the same number of values for each parameter
             for i in range(len(self.dist) - 1):
                 if isinstance(values[i], (list, np.ndarray)) or isinstance(
@@ -880,11 +883,7 @@ class JointPrior(Prior):
                             "number of requested values."
                         )
 
-            lnp = self.dist.ln_prob(np.asarray(values).T)
-
-            # reset the requested parameters
-            self.dist.reset_request()
-            return lnp
+            return self.dist.ln_prob(np.asarray(values).T)
         else:
             # if not all parameters have been requested yet, just return 0
             if isinstance(val, (float, int)):
-- 
2.43.0


From 6673126a18fabb3b3655131a59bdacd23665d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 008/105] fix: return rescaled joint prior values with the keys
 they belong to

---
 bilby/core/prior/dict.py | 42 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 3046375..659ac13 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -647,9 +647,42 @@ class PriorDict(dict):
         """
         from matplotlib.cbook import flatten
 
-        return list(
-            flatten([self[key].rescale(sample) for key, sample in zip(keys, theta)])
-        )
+        keys = list(keys)
+        result = dict()
+        for key, sample in zip(keys, theta):
+            result[key] = self[key].rescale(sample)
+            self._assign_joint_values(key, result)
+        return list(flatten([result[key] for key in keys]))
+
+    def _assign_joint_values(self, key, result):
+        """
+        Joint priors return the values of all their parameters, in the order of
+        the names of the distribution, with the last parameter that is rescaled.
+        This passes them on to the keys they belong to.
+
+        Parameters
+        ==========
+        key: str
+            The key which was rescaled last
+        result: dict
+            The values obtained so far, modified in place
+
+        Returns
+        =======
+        list: The keys that have been given values
+        """
+        if not isinstance(self[key], JointPrior) or np.size(result[key]) == 0:
+            return [key]
+        dist = self[key].dist
+        joint_keys = {
+            self[k].name: k for k in result if getattr(self[k], "dist", None) is dist
+        }
+        if len(dist) == 1 or any(name not in joint_keys for name in dist.names):
+            return [key]
+        values = np.asarray(result[key])
+        for ii, name in enumerate(dist.names):
+            result[joint_keys[name]] = values[..., ii][()]
+        return list(joint_keys.values())
 
     def test_redundancy(self, key, disable_logging=False):
         """Empty redundancy test, should be overwritten in subclasses"""
@@ -905,7 +938,8 @@ class ConditionalPriorDict(PriorDict):
             result[key] = self[key].rescale(
                 theta[indexes[key]], **self.get_required_variables(key)
             )
-            self[key].least_recently_sampled = result[key]
+            for updated_key in self._assign_joint_values(key, result):
+                self[updated_key].least_recently_sampled = result[updated_key]
         return list(flatten([result[key] for key in keys]))
 
     def _update_rescale_keys(self, keys):
-- 
2.43.0


From 76dd7b2e923073560b88af81dec454d936824f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 009/105] fix: weight the modes of a multivariate Gaussian
 mixture in its density

---
 bilby/core/prior/joint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 10cfe29..7dc5c4d 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -674,12 +674,15 @@ class MultivariateGaussianDist(BaseJointPriorDist):
         return samps
 
     def _ln_prob(self, samp, lnprob, outbounds):
+        lnweights = np.log(self.weights) - np.log(np.sum(self.weights))
         for j in range(samp.shape[0]):
             # loop over the modes and sum the probabilities
             for i in range(self.nmodes):
                 # self.mvn[i] is a "standard" multivariate normal distribution; see add_mode()
                 z = (samp[j] - self.mus[i]) / self.sigmas[i]
-                lnprob[j] = np.logaddexp(lnprob[j], self.mvn[i].logpdf(z) - self.logprodsigmas[i])
+                lnprob[j] = np.logaddexp(
+                    lnprob[j], self.mvn[i].logpdf(z) - self.logprodsigmas[i] + lnweights[i]
+                )
 
         # set out-of-bounds values to -inf
         lnprob[outbounds] = -np.inf
-- 
2.43.0


From 98994f7edd219acc45413f93c4adfdd053d753c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 010/105] fix: refuse chain indexes before the first sample

---
 bilby/bilby_mcmc/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/chain.py b/bilby/bilby_mcmc/chain.py
index 0c19134..ccfb876 100644
--- a/bilby/bilby_mcmc/chain.py
+++ b/bilby/bilby_mcmc/chain.py
@@ -116,7 +116,7 @@ class Chain(object):
         if index < 0:
             index = index + self.position + 1
 
-        if index <= self.position:
+        if 0 <= index <= self.position:
             values = self._chain_array[index]
             return Sample({k: v for k, v in zip(self.keys, values)})
         else:
-- 
2.43.0


From 11e78c932a3c9d67f692e01e12b5f3c9741ef85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 011/105] fix: continue a chain from its last sample after it
 was replaced

---
 bilby/bilby_mcmc/chain.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bilby/bilby_mcmc/chain.py b/bilby/bilby_mcmc/chain.py
index ccfb876..8fb59d3 100644
--- a/bilby/bilby_mcmc/chain.py
+++ b/bilby/bilby_mcmc/chain.py
@@ -126,8 +126,18 @@ class Chain(object):
         if index < 0:
             index = index + self.position + 1
 
+        if not 0 <= index <= self.position:
+            raise SamplerError(f"Requested index {index} out of bounds")
+
         self._chain_array[index] = sample.list
 
+        # The chain continues from its last sample
+        if index == self.position:
+            self.current_sample = sample
+
+        if sample[LOGLKEY] > self.max_log_likelihood:
+            self.max_log_likelihood = sample[LOGLKEY]
+
     def key_to_idx(self, key):
         return self.keys.index(key)
 
-- 
2.43.0


From 2c7656b8dae8758ea51739285c3f40fd7f5a200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:39 +0000
Subject: [PATCH 012/105] fix: let the uniform proposal move parameters with
 finite support

---
 bilby/bilby_mcmc/proposals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 6100d75..62959e2 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -346,7 +346,7 @@ class UniformProposal(BaseProposal):
         sample = chain.current_sample
         for key in self.parameters:
             width = self.prior_width_dict[key]
-            if np.isinf(width) is False:
+            if not np.isinf(width):
                 sample[key] = random.rng.uniform(
                     self.prior_minimum_dict[key], self.prior_maximum_dict[key]
                 )
-- 
2.43.0


From 8e7eac9b03d326d8a9947b5b5d98714c325f5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:39 +0000
Subject: [PATCH 013/105] fix: reflect jumps which land on an odd multiple of
 the prior width

---
 bilby/core/sampler/proposal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/proposal.py b/bilby/core/sampler/proposal.py
index d23d19b..1db745c 100644
--- a/bilby/core/sampler/proposal.py
+++ b/bilby/core/sampler/proposal.py
@@ -83,7 +83,7 @@ class JumpProposal(object):
                     sample[key] = (
                         2 * self.priors[key].maximum - self.priors[key].minimum - delta
                     )
-                elif delta < r:
+                else:
                     sample[key] = self.priors[key].minimum + delta
         return sample
 
-- 
2.43.0


From 4ba91564f9662be612693ba9b7f44a54f52fafe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 014/105] fix: take a sampling time given as a number to be in
 seconds

---
 bilby/core/sampler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index ef65ce1..254d7b4 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -309,7 +309,7 @@ def run_sampler(
         if result.sampling_time is None:
             result.sampling_time = end_time - start_time
         elif isinstance(result.sampling_time, (float, int)):
-            result.sampling_time = datetime.timedelta(result.sampling_time)
+            result.sampling_time = datetime.timedelta(seconds=result.sampling_time)
 
         logger.info(f"Sampling time: {result.sampling_time}")
         # Convert sampling time into seconds
-- 
2.43.0


From 45caeb0e7734ecfcbd2d67d879971ecc44438732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 015/105] fix: convert the injection parameters of a run once

---
 bilby/core/sampler/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index 254d7b4..2ab2446 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -332,9 +332,6 @@ def run_sampler(
         if save:
             result.save_to_file(extension=save, gzip=gzip, outdir=outdir)
 
-    if None not in [result.injection_parameters, conversion_function]:
-        result.injection_parameters = conversion_function(result.injection_parameters)
-
     # Check if the posterior has already been created
     if getattr(result, "_posterior", None) is None:
         result.samples_to_posterior(
-- 
2.43.0


From cfa2f71d15a1918912007cfdb9f46041f1f8d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 016/105] fix: accept a sampler class in run_sampler

---
 bilby/core/sampler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index 2ab2446..8b866d3 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -275,7 +275,7 @@ def run_sampler(
             **kwargs,
         )
     elif inspect.isclass(sampler):
-        sampler = sampler.__init__(
+        sampler = sampler(
             likelihood,
             priors=priors,
             outdir=outdir,
-- 
2.43.0


From 4665489c2379d7aa247cca5c2aea3c0e31809760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 017/105] fix: limit the clean option given to run_sampler to
 that call

---
 bilby/core/sampler/__init__.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index 8b866d3..f3c0806 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -1,4 +1,5 @@
 import datetime
+import functools
 import inspect
 import sys
 
@@ -140,6 +141,21 @@ if command_line_args.sampler_help:
     sys.exit()
 
 
+def _restore_clean_option(function):
+    """Limit changes of the `clean` option to a single call of the function"""
+
+    @functools.wraps(function)
+    def wrapped(*args, **kwargs):
+        clean = command_line_args.clean
+        try:
+            return function(*args, **kwargs)
+        finally:
+            command_line_args.clean = clean
+
+    return wrapped
+
+
+@_restore_clean_option
 def run_sampler(
     likelihood,
     priors=None,
@@ -222,7 +238,7 @@ def run_sampler(
 
     logger.info(f"Running for label '{label}', output will be saved to '{outdir}'")
 
-    if clean:
+    if clean is not None:
         command_line_args.clean = clean
     if command_line_args.clean:
         kwargs["resume"] = False
-- 
2.43.0


From bb3c2566219a560a379c2cd48b3329dd6b9f562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:23 +0000
Subject: [PATCH 018/105] fix: keep emcee samples and their log likelihoods in
 the same order

---
 bilby/core/sampler/emcee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/emcee.py b/bilby/core/sampler/emcee.py
index 2c12ee3..9bd0e07 100644
--- a/bilby/core/sampler/emcee.py
+++ b/bilby/core/sampler/emcee.py
@@ -418,8 +418,11 @@ class Emcee(MCMCSampler):
 
         self._generate_result()
 
-        self.result.samples = self.sampler.chain[:, self.nburn :, :].reshape(
-            (-1, self.ndim)
+        # the same order, walkers within steps, as the stored likelihoods and priors
+        self.result.samples = (
+            self.sampler.chain[:, self.nburn :, :]
+            .swapaxes(0, 1)
+            .reshape((-1, self.ndim))
         )
         self.result.walkers = self.sampler.chain
         return self.result
-- 
2.43.0


From a480990bc1e7ef7a8d616909a58e54f10240dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:23 +0000
Subject: [PATCH 019/105] fix: keep zeus samples and their log likelihoods in
 the same order

---
 bilby/core/sampler/zeus.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bilby/core/sampler/zeus.py b/bilby/core/sampler/zeus.py
index ad6e7ed..ec0818e 100644
--- a/bilby/core/sampler/zeus.py
+++ b/bilby/core/sampler/zeus.py
@@ -165,7 +165,10 @@ class Zeus(Emcee):
 
         self._generate_result()
 
-        self.result.samples = self.sampler.get_chain(flat=True, discard=self.nburn)
+        # the same order, walkers within steps, as the stored likelihoods and priors
+        self.result.samples = np.array(
+            self.sampler.get_chain(discard=self.nburn)
+        ).reshape((-1, self.ndim))
         self.result.walkers = self.sampler.chain
         return self.result
 
@@ -178,9 +181,7 @@ class Zeus(Emcee):
                 f"`nburn < nsteps` ({self.result.nburn} < {self.nsteps})."
                 " Try increasing the number of steps."
             )
-        blobs = np.array(self.sampler.get_blobs(flat=True, discard=self.nburn)).reshape(
-            (-1, 2)
-        )
+        blobs = np.array(self.sampler.get_blobs(discard=self.nburn)).reshape((-1, 2))
         log_likelihoods, log_priors = blobs.T
         self.result.log_likelihood_evaluations = log_likelihoods
         self.result.log_prior_evaluations = log_priors
-- 
2.43.0


From 0843230f9391b0be0f84d6dcf3f2920c2c4edd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:54 +0000
Subject: [PATCH 020/105] fix: print the status of dynesty at every iteration
 when no interval is given

---
 bilby/core/sampler/dynesty.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 539531c..2d6241b 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -348,12 +348,6 @@ class Dynesty(NestedSampler):
             else:
                 self._last_print_time = _time
 
-                # Add time in current run to overall sampling time
-                total_time = self.sampling_time + _time - self.start_time
-
-                # Remove fractional seconds
-                total_time_str = str(total_time).split(".")[0]
-
         # Extract results at the current iteration.
         loglstar = results.loglstar
         delta_logz = results.delta_logz
@@ -401,6 +395,11 @@ class Dynesty(NestedSampler):
             self.pbar.set_postfix_str(string, refresh=False)
             self.pbar.update(niter - self.pbar.n)
         else:
+            # Add time in current run to overall sampling time
+            total_time = self.sampling_time + datetime.datetime.now() - self.start_time
+
+            # Remove fractional seconds
+            total_time_str = str(total_time).split(".")[0]
             print(f"{niter}it [{total_time_str} {string}]", file=sys.stdout, flush=True)
 
     def _apply_dynesty_boundaries(self, key):
@@ -981,6 +980,7 @@ class Dynesty(NestedSampler):
             from tqdm.auto import tqdm
 
             self.pbar = tqdm(file=sys.stdout, initial=self.sampler.it)
+        self.start_time = datetime.datetime.now()
         self.sampler.run_nested(**sampler_kwargs)
         self._close_pool()
 
-- 
2.43.0


From 008b6115b7c96e26bc8f5ad49570d9e259e2c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:54 +0000
Subject: [PATCH 021/105] fix: count whole days in the sampling time reported
 by dynesty

---
 bilby/core/sampler/dynesty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 2d6241b..7c1543f 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -649,7 +649,7 @@ class Dynesty(NestedSampler):
         self.result.meta_data["run_statistics"] = dict(
             nlikelihood=self.result.num_likelihood_evaluations,
             neffsamples=neffsamples,
-            sampling_time_s=self.sampling_time.seconds,
+            sampling_time_s=int(self.sampling_time.total_seconds()),
             ncores=self.kwargs.get("queue_size", 1),
         )
         self.kwargs["rstate"] = None
-- 
2.43.0


From cd69098a19dc2c79c97a8ddf0009bca7ca843df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 022/105] fix: do not reuse a result computed with other prior
 constraints

---
 bilby/core/sampler/base_sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 17a7b11..33ed0ab 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -672,7 +672,11 @@ class Sampler(object):
 
         logger.debug("Checking cached data")
         if self.cached_result:
-            check_keys = ["search_parameter_keys", "fixed_parameter_keys"]
+            check_keys = [
+                "search_parameter_keys",
+                "fixed_parameter_keys",
+                "constraint_parameter_keys",
+            ]
             use_cache = True
             for key in check_keys:
                 if (
-- 
2.43.0


From 6fe55f062fee4adca734193030b8282010fa48dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 023/105] fix: use the given result class when the sampler is
 given as a class

---
 bilby/core/sampler/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index f3c0806..7168f3b 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -300,6 +300,7 @@ def run_sampler(
             plot=plot,
             injection_parameters=injection_parameters,
             meta_data=meta_data,
+            result_class=result_class,
             npool=npool,
             **kwargs,
         )
-- 
2.43.0


From 2937e54e0c9068a092d54bd80f26d76f78be70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 024/105] fix: save every callable sampler setting as its own
 name and leave the result unchanged

---
 bilby/core/result.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index c5d27bf..23259fd 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -791,9 +791,10 @@ class Result(object):
 
         # Convert callable sampler_kwargs to strings
         if dictionary.get('sampler_kwargs', None) is not None:
-            for key in dictionary['sampler_kwargs']:
-                if hasattr(dictionary['sampler_kwargs'][key], '__call__'):
-                    dictionary['sampler_kwargs'][key] = str(dictionary['sampler_kwargs'])
+            dictionary['sampler_kwargs'] = {
+                key: str(value) if hasattr(value, '__call__') else value
+                for key, value in dictionary['sampler_kwargs'].items()
+            }
 
         try:
             # convert priors to JSON dictionary for both JSON and hdf5 files
-- 
2.43.0


From 831504546587b910eb6424f8221657da8578f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 025/105] fix: accept pickle as an extension when saving a
 result

---
 bilby/core/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 23259fd..606d875 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -779,6 +779,8 @@ class Result(object):
 
         if extension is True:
             extension = "json"
+        elif extension == "pickle":
+            extension = "pkl"
 
         outdir = self._safe_outdir_creation(outdir, self.save_to_file)
         if filename is None:
-- 
2.43.0


From afab64c8972b55b39ce02a9a429869e2c76f6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 026/105] fix: leave no truncated file and keep an existing
 pickle when saving a result fails

---
 bilby/core/result.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 606d875..d1bdf41 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -822,7 +822,11 @@ class Result(object):
             else:
                 raise ValueError("Extension type {} not understood".format(extension))
         except Exception as e:
+            if os.path.isfile(filename):
+                # do not leave an incomplete file behind
+                os.remove(filename)
             filename = ".".join(filename.split(".")[:-1]) + ".pkl"
+            move_old_file(filename, overwrite)
             safe_file_dump(self, filename, "dill")
             logger.error(
                 "\n\nSaving the data has failed with the following message:\n"
-- 
2.43.0


From d4a38586dad7a81bc6a04bc12701a66653dd37b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 027/105] fix: look for a pickled result under its own
 extension

---
 bilby/core/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index d1bdf41..a2e6bfb 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -525,7 +525,7 @@ class Result(object):
     @staticmethod
     @docstring(_load_doctstring.format(format="pickle"))
     def from_pickle(filename=None, outdir=None, label=None):
-        filename = _determine_file_name(filename, outdir, label, 'hdf5', False)
+        filename = _determine_file_name(filename, outdir, label, 'pkl', False)
         import dill
         with open(filename, "rb") as ff:
             return dill.load(ff)
-- 
2.43.0


From b68c48c1c61f56f20f7bf5dd3d85da839161b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 028/105] fix: save all numpy scalars in JSON and HDF5 files

---
 bilby/core/utils/io.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index cc8329e..cc33683 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -35,6 +35,8 @@ class BilbyJsonEncoder(json.JSONEncoder):
             return int(obj)
         if isinstance(obj, np.floating):
             return float(obj)
+        if isinstance(obj, np.bool_):
+            return bool(obj)
         if isinstance(obj, PriorDict):
             return {"__prior_dict__": True, "content": obj._get_json_dict()}
         if isinstance(obj, (BaseJointPriorDist, Prior)):
@@ -59,7 +61,7 @@ class BilbyJsonEncoder(json.JSONEncoder):
             logger.debug("Cannot import astropy, cannot write cosmological priors")
         if isinstance(obj, np.ndarray):
             return {"__array__": True, "content": obj.tolist()}
-        if isinstance(obj, complex):
+        if isinstance(obj, (complex, np.complexfloating)):
             return {"__complex__": True, "real": obj.real, "imag": obj.imag}
         if isinstance(obj, pd.DataFrame):
             return {"__dataframe__": True, "content": obj.to_dict(orient="list")}
@@ -264,12 +266,14 @@ def encode_for_hdf5(key, item):
     """
     from ..prior.dict import PriorDict
 
-    if isinstance(item, np.int_):
+    if isinstance(item, np.integer):
         item = int(item)
-    elif isinstance(item, np.float64):
+    elif isinstance(item, np.floating):
         item = float(item)
-    elif isinstance(item, np.complex128):
+    elif isinstance(item, np.complexfloating):
         item = complex(item)
+    elif isinstance(item, np.bool_):
+        item = bool(item)
     if isinstance(item, np.ndarray):
         # Numpy's wide unicode strings are not supported by hdf5
         if item.dtype.kind == 'U':
-- 
2.43.0


From 23e1d2e09734ad2c059d36b1c4222a48b097dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 029/105] fix: keep empty dictionaries in HDF5 files

---
 bilby/core/utils/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index cc33683..1ec4b1f 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -370,6 +370,7 @@ def recursively_save_dict_contents_to_group(h5file, path, dic):
     for key, item in dic.items():
         item = encode_for_hdf5(key, item)
         if isinstance(item, dict):
+            h5file.require_group(path + key)
             recursively_save_dict_contents_to_group(h5file, path + key + "/", item)
         else:
             h5file[path + key] = item
-- 
2.43.0


From e932e5c0e6f6cc0c3a4b350a4d2713ad5e548c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 030/105] fix: restore None in lists read from HDF5 files

---
 bilby/core/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index 1ec4b1f..ee0b28c 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -238,7 +238,7 @@ def decode_from_hdf5(item):
         if item.size == 0:
             output = item
         elif "|S" in str(item.dtype) or isinstance(item[0], bytes):
-            output = [it.decode() for it in item]
+            output = [None if it == b"__none__" else it.decode() for it in item]
         else:
             output = item
     elif isinstance(item, np.bool_):
-- 
2.43.0


From 1c4ac34e221982bcb2ea0ada0b9cf4068f28e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 031/105] fix: replace every view of the strain data when new
 data are set

---
 bilby/gw/detector/strain_data.py | 92 +++++++++++++++-----------------
 1 file changed, 43 insertions(+), 49 deletions(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 06e0c01..a9422a6 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -426,8 +426,8 @@ class InterferometerStrainData(object):
         """ Helper function to figure out if the time_array, or
             sampling_frequency and duration where given
         """
-        self._infer_dependence(domain='time', array=time_array, duration=duration,
-                               sampling_frequency=sampling_frequency, start_time=start_time)
+        return self._infer_dependence(domain='time', array=time_array, duration=duration,
+                                      sampling_frequency=sampling_frequency, start_time=start_time)
 
     def _infer_frequency_domain_dependence(
             self, start_time, sampling_frequency, duration, frequency_array):
@@ -435,8 +435,8 @@ class InterferometerStrainData(object):
             sampling_frequency and duration where given
         """
 
-        self._infer_dependence(domain='frequency', array=frequency_array,
-                               duration=duration, sampling_frequency=sampling_frequency, start_time=start_time)
+        return self._infer_dependence(domain='frequency', array=frequency_array,
+                                      duration=duration, sampling_frequency=sampling_frequency, start_time=start_time)
 
     def _infer_dependence(self, domain, array, duration, sampling_frequency, start_time):
         if (sampling_frequency is not None) and (duration is not None):
@@ -446,21 +446,30 @@ class InterferometerStrainData(object):
                     "an array")
             pass
         elif array is not None:
+            times_and_frequencies = CoupledTimeAndFrequencySeries(start_time=start_time)
             if domain == 'time':
-                self.time_array = array
+                times_and_frequencies.time_array = array
             elif domain == 'frequency':
-                self.frequency_array = array
-                self.start_time = start_time
-            return
+                times_and_frequencies.frequency_array = array
+            return times_and_frequencies
         elif sampling_frequency is None or duration is None:
             raise ValueError(
                 "You must provide both sampling_frequency and duration")
         else:
             raise ValueError(
                 "Insufficient information given to set arrays")
-        self._times_and_frequencies = CoupledTimeAndFrequencySeries(duration=duration,
-                                                                    sampling_frequency=sampling_frequency,
-                                                                    start_time=start_time)
+        return CoupledTimeAndFrequencySeries(
+            duration=duration, sampling_frequency=sampling_frequency, start_time=start_time)
+
+    def _replace_data(self, times_and_frequencies, time_domain_strain=None,
+                      frequency_domain_strain=None, channel=None):
+        """ Replace the data, and with it everything that describes the previous data """
+        self._times_and_frequencies = times_and_frequencies
+        self._time_domain_strain = time_domain_strain
+        self._frequency_domain_strain = frequency_domain_strain
+        self._channel = channel
+        self.window_factor = 1
+        self._frequency_mask_updated = False
 
     def set_from_time_domain_strain(
             self, time_domain_strain, sampling_frequency=None, duration=None,
@@ -486,15 +495,13 @@ class InterferometerStrainData(object):
             given.
 
         """
-        self._infer_time_domain_dependence(start_time=start_time,
-                                           sampling_frequency=sampling_frequency,
-                                           duration=duration,
-                                           time_array=time_array)
+        times_and_frequencies = self._infer_time_domain_dependence(
+            start_time=start_time, sampling_frequency=sampling_frequency,
+            duration=duration, time_array=time_array)
 
         logger.debug('Setting data using provided time_domain_strain')
-        if np.shape(time_domain_strain) == np.shape(self.time_array):
-            self._time_domain_strain = time_domain_strain
-            self._frequency_domain_strain = None
+        if np.shape(time_domain_strain) == np.shape(times_and_frequencies.time_array):
+            self._replace_data(times_and_frequencies, time_domain_strain=time_domain_strain)
         else:
             raise ValueError("Data times do not match time array")
 
@@ -515,13 +522,11 @@ class InterferometerStrainData(object):
         logger.debug('Setting data using provided gwpy TimeSeries object')
         if not isinstance(time_series, TimeSeries):
             raise ValueError("Input time_series is not a gwpy TimeSeries")
-        self._times_and_frequencies = \
+        self._replace_data(
             CoupledTimeAndFrequencySeries(duration=time_series.duration.value,
                                           sampling_frequency=time_series.sample_rate.value,
-                                          start_time=time_series.epoch.value)
-        self._time_domain_strain = time_series.value
-        self._frequency_domain_strain = None
-        self._channel = time_series.channel
+                                          start_time=time_series.epoch.value),
+            time_domain_strain=time_series.value, channel=time_series.channel)
 
     @property
     def channel(self):
@@ -594,15 +599,13 @@ class InterferometerStrainData(object):
 
         """
 
-        self._infer_frequency_domain_dependence(start_time=start_time,
-                                                sampling_frequency=sampling_frequency,
-                                                duration=duration,
-                                                frequency_array=frequency_array)
+        times_and_frequencies = self._infer_frequency_domain_dependence(
+            start_time=start_time, sampling_frequency=sampling_frequency,
+            duration=duration, frequency_array=frequency_array)
 
         logger.debug('Setting data using provided frequency_domain_strain')
-        if np.shape(frequency_domain_strain) == np.shape(self.frequency_array):
-            self._frequency_domain_strain = frequency_domain_strain
-            self.window_factor = 1
+        if np.shape(frequency_domain_strain) == np.shape(times_and_frequencies.frequency_array):
+            self._replace_data(times_and_frequencies, frequency_domain_strain=frequency_domain_strain)
         else:
             raise ValueError("Data frequencies do not match frequency_array")
 
@@ -624,18 +627,17 @@ class InterferometerStrainData(object):
 
         """
 
-        self._times_and_frequencies = CoupledTimeAndFrequencySeries(duration=duration,
-                                                                    sampling_frequency=sampling_frequency,
-                                                                    start_time=start_time)
+        times_and_frequencies = CoupledTimeAndFrequencySeries(
+            duration=duration, sampling_frequency=sampling_frequency, start_time=start_time)
         logger.debug(
             'Setting data using noise realization from provided'
             'power_spectal_density')
         frequency_domain_strain, frequency_array = \
             power_spectral_density.get_noise_realisation(
-                self.sampling_frequency, self.duration)
+                sampling_frequency, duration)
 
-        if np.array_equal(frequency_array, self.frequency_array):
-            self._frequency_domain_strain = frequency_domain_strain
+        if np.array_equal(frequency_array, times_and_frequencies.frequency_array):
+            self._replace_data(times_and_frequencies, frequency_domain_strain=frequency_domain_strain)
         else:
             raise ValueError("Data frequencies do not match frequency_array")
 
@@ -653,12 +655,12 @@ class InterferometerStrainData(object):
 
         """
 
-        self._times_and_frequencies = CoupledTimeAndFrequencySeries(duration=duration,
-                                                                    sampling_frequency=sampling_frequency,
-                                                                    start_time=start_time)
+        times_and_frequencies = CoupledTimeAndFrequencySeries(
+            duration=duration, sampling_frequency=sampling_frequency, start_time=start_time)
         logger.debug('Setting zero noise data')
-        self._frequency_domain_strain = np.zeros_like(self.frequency_array,
-                                                      dtype=complex)
+        self._replace_data(
+            times_and_frequencies,
+            frequency_domain_strain=np.zeros_like(times_and_frequencies.frequency_array, dtype=complex))
 
     def set_from_frame_file(
             self, frame_file, sampling_frequency, duration, start_time=0,
@@ -683,10 +685,6 @@ class InterferometerStrainData(object):
 
         """
 
-        self._times_and_frequencies = CoupledTimeAndFrequencySeries(
-            duration=duration, sampling_frequency=sampling_frequency,
-            start_time=start_time)
-
         logger.info('Reading data from frame file {}'.format(frame_file))
         strain = gwutils.read_frame_file(
             frame_file, start_time=start_time, end_time=start_time + duration,
@@ -718,10 +716,6 @@ class InterferometerStrainData(object):
         if len(channel_comp) != 2:
             raise IndexError('Channel name must have format `IFO:Channel`')
 
-        self._times_and_frequencies = CoupledTimeAndFrequencySeries(
-            duration=duration, sampling_frequency=sampling_frequency,
-            start_time=start_time)
-
         logger.info('Fetching data using channel {}'.format(channel))
         strain = TimeSeries.get(channel, start_time, start_time + duration)
         strain = strain.resample(sampling_frequency)
-- 
2.43.0


From a38c6044182e544e9cc65449a6676e44f539d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 032/105] fix: keep the requested maximum frequency when data
 with a lower Nyquist frequency are set

---
 bilby/gw/detector/strain_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index a9422a6..278b7a0 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -102,7 +102,7 @@ class InterferometerStrainData(object):
         """ Force the maximum frequency be less than the Nyquist frequency """
         if self.sampling_frequency is not None:
             if 2 * self._maximum_frequency > self.sampling_frequency:
-                self._maximum_frequency = self.sampling_frequency / 2.
+                return self.sampling_frequency / 2.
         return self._maximum_frequency
 
     @maximum_frequency.setter
-- 
2.43.0


From c5c18f7a19f4f73ad68c112cbfeac504338fb002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 033/105] fix: keep window, band and strain views of the data
 in step

---
 bilby/gw/detector/strain_data.py | 40 +++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 278b7a0..6b8c215 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -39,8 +39,6 @@ class InterferometerStrainData(object):
         self.minimum_frequency = minimum_frequency
         self.maximum_frequency = maximum_frequency
         self.notch_list = notch_list
-        self.roll_off = roll_off
-        self.window_factor = 1
 
         self._times_and_frequencies = CoupledTimeAndFrequencySeries()
 
@@ -49,6 +47,8 @@ class InterferometerStrainData(object):
         self._frequency_domain_strain = None
         self._time_domain_strain = None
         self._channel = None
+        self.roll_off = roll_off
+        self.window_factor = 1
 
     def __eq__(self, other):
         if self.minimum_frequency == other.minimum_frequency \
@@ -159,6 +159,29 @@ class InterferometerStrainData(object):
         self._frequency_mask = mask
         self._frequency_mask_updated = True
 
+    @property
+    def roll_off(self):
+        """ The roll-off (in seconds) of the window applied to time domain data """
+        return self._roll_off
+
+    @roll_off.setter
+    def roll_off(self, roll_off):
+        self._roll_off = roll_off
+        if self._time_domain_strain is not None:
+            self._frequency_domain_strain = None
+            self._window_factor = None
+
+    @property
+    def window_factor(self):
+        """ The power loss due to the windowing, one for data given in the frequency domain """
+        if self._window_factor is None:
+            self.time_domain_window()
+        return self._window_factor
+
+    @window_factor.setter
+    def window_factor(self, window_factor):
+        self._window_factor = window_factor
+
     @property
     def alpha(self):
         return 2 * self.roll_off / self.duration
@@ -188,7 +211,7 @@ class InterferometerStrainData(object):
             self.roll_off = roll_off
         elif alpha is not None:
             self.roll_off = alpha * self.duration / 2
-        window = tukey(len(self._time_domain_strain), alpha=self.alpha)
+        window = tukey(len(self.time_domain_strain), alpha=self.alpha)
         self.window_factor = np.mean(window ** 2)
         return window
 
@@ -198,10 +221,8 @@ class InterferometerStrainData(object):
         if self._time_domain_strain is not None:
             return self._time_domain_strain
         elif self._frequency_domain_strain is not None:
-            self._time_domain_strain = utils.infft(
+            return utils.infft(
                 self.frequency_domain_strain, self.sampling_frequency)
-            return self._time_domain_strain
-
         else:
             raise ValueError("time domain strain data not yet set")
 
@@ -222,7 +243,7 @@ class InterferometerStrainData(object):
                 self.alpha, self.roll_off))
             # self.low_pass_filter()
             window = self.time_domain_window()
-            self._frequency_domain_strain, self.frequency_array = utils.nfft(
+            self._frequency_domain_strain, _ = utils.nfft(
                 self._time_domain_strain * window, self.sampling_frequency)
             return self._frequency_domain_strain * self.frequency_mask
         else:
@@ -232,6 +253,7 @@ class InterferometerStrainData(object):
     def frequency_domain_strain(self, frequency_domain_strain):
         if not len(self.frequency_array) == len(frequency_domain_strain):
             raise ValueError("The frequency_array and the set strain have different lengths")
+        self.window_factor = self.window_factor
         self._frequency_domain_strain = frequency_domain_strain
         self._time_domain_strain = None
 
@@ -358,6 +380,8 @@ class InterferometerStrainData(object):
         strain = TimeSeries(self.time_domain_strain, sample_rate=self.sampling_frequency)
         strain = strain.filter(bp, filtfilt=True)
         self._time_domain_strain = strain.value
+        self._frequency_domain_strain = None
+        self._window_factor = None
 
     def create_power_spectral_density(
             self, fft_length, overlap=0, name='unknown', outdir=None,
@@ -468,7 +492,7 @@ class InterferometerStrainData(object):
         self._time_domain_strain = time_domain_strain
         self._frequency_domain_strain = frequency_domain_strain
         self._channel = channel
-        self.window_factor = 1
+        self.window_factor = 1 if time_domain_strain is None else None
         self._frequency_mask_updated = False
 
     def set_from_time_domain_strain(
-- 
2.43.0


From 289d548db63b7d2f6b11b8acd5759537c234d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 034/105] fix: update times and frequencies when the other
 array is set

---
 bilby/core/series.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/series.py b/bilby/core/series.py
index ba1d0ff..fbb9a57 100644
--- a/bilby/core/series.py
+++ b/bilby/core/series.py
@@ -54,6 +54,7 @@ class CoupledTimeAndFrequencySeries(object):
         self._sampling_frequency, self._duration = \
             utils.get_sampling_frequency_and_duration_from_frequency_array(frequency_array)
         self._frequency_array_updated = True
+        self._time_array_updated = False
 
     @property
     def time_array(self):
@@ -85,6 +86,7 @@ class CoupledTimeAndFrequencySeries(object):
             utils.get_sampling_frequency_and_duration_from_time_array(time_array)
         self._start_time = time_array[0]
         self._time_array_updated = True
+        self._frequency_array_updated = False
 
     @property
     def duration(self):
-- 
2.43.0


From f7530efb19152ebe2b6e32c297036d50c58fb181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 035/105] fix: remove the analysis segment from the data used
 for the PSD

---
 bilby/gw/detector/strain_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 6b8c215..600c212 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -419,7 +419,7 @@ class InterferometerStrainData(object):
 
         if analysis_segment_start_time is not None:
             analysis_segment_end_time = analysis_segment_start_time + fft_length
-            inside = (analysis_segment_start_time > self.time_array[0] +
+            inside = (analysis_segment_start_time > self.time_array[0] and
                       analysis_segment_end_time < self.time_array[-1])
             if inside:
                 logger.info("Removing analysis segment data from the PSD data")
-- 
2.43.0


From 1e7809bcff54505d341d898fd1c37882a205e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 036/105] fix: accept a NotchList as notch_list

---
 bilby/gw/detector/strain_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 600c212..d152724 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -127,10 +127,10 @@ class InterferometerStrainData(object):
         """
         if notch_list is None:
             self._notch_list = NotchList(None)
-        elif isinstance(notch_list, list):
-            self._notch_list = NotchList(notch_list)
         elif isinstance(notch_list, NotchList):
             self._notch_list = notch_list
+        elif isinstance(notch_list, list):
+            self._notch_list = NotchList(notch_list)
         else:
             raise ValueError("notch_list {} not understood".format(notch_list))
         self._frequency_mask_updated = False
-- 
2.43.0


From 4a601ffe029a9951f388233b02aec8e01f7f0cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:16 +0000
Subject: [PATCH 037/105] fix: leave an InterferometerList unchanged when a
 detector does not fit

---
 bilby/gw/detector/networks.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/detector/networks.py b/bilby/gw/detector/networks.py
index 7ff6f44..ae1f59f 100644
--- a/bilby/gw/detector/networks.py
+++ b/bilby/gw/detector/networks.py
@@ -224,20 +224,35 @@ class InterferometerList(list):
     def frequency_array(self):
         return self[0].strain_data.frequency_array
 
+    def _check_or_restore(self, previous):
+        """Verify the list after a change, undo the change if it is not allowed"""
+        try:
+            self._check_interferometers()
+        except Exception:
+            self[:] = previous
+            raise
+
     def append(self, interferometer):
+        previous = list(self)
         if isinstance(interferometer, InterferometerList):
             super(InterferometerList, self).extend(interferometer)
         else:
             super(InterferometerList, self).append(interferometer)
-        self._check_interferometers()
+        self._check_or_restore(previous)
 
     def extend(self, interferometers):
+        previous = list(self)
         super(InterferometerList, self).extend(interferometers)
-        self._check_interferometers()
+        self._check_or_restore(previous)
+
+    def __iadd__(self, interferometers):
+        self.extend(interferometers)
+        return self
 
     def insert(self, index, interferometer):
+        previous = list(self)
         super(InterferometerList, self).insert(index, interferometer)
-        self._check_interferometers()
+        self._check_or_restore(previous)
 
     @property
     def meta_data(self):
-- 
2.43.0


From 36e173d7b12344277e67687bcc55bcf63d21d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:17 +0000
Subject: [PATCH 038/105] fix: compare the start times of detectors to five
 decimal places

---
 bilby/gw/detector/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/detector/networks.py b/bilby/gw/detector/networks.py
index ae1f59f..af622df 100644
--- a/bilby/gw/detector/networks.py
+++ b/bilby/gw/detector/networks.py
@@ -68,7 +68,9 @@ class InterferometerList(list):
                         )
                     )
             except ValueError as e:
-                if not all(math.isclose(y, x[0], abs_tol=1e-5) for y in x):
+                if any(y is None for y in x) or not all(
+                    math.isclose(y, x[0], rel_tol=0, abs_tol=1e-5) for y in x
+                ):
                     raise ValueError(e)
                 else:
                     logger.warning(e)
-- 
2.43.0


From d6e3091a18de5d012c95029c7f7bfddc7942c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 039/105] fix: inject a signal in all or none of the detectors

---
 bilby/gw/detector/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bilby/gw/detector/networks.py b/bilby/gw/detector/networks.py
index af622df..2cf0916 100644
--- a/bilby/gw/detector/networks.py
+++ b/bilby/gw/detector/networks.py
@@ -174,6 +174,10 @@ class InterferometerList(list):
                     "injection_polarizations."
                 )
 
+        if raise_error:
+            for interferometer in self:
+                interferometer.check_signal_duration(parameters)
+
         all_injection_polarizations = list()
         for interferometer in self:
             all_injection_polarizations.append(
-- 
2.43.0


From bc552b2bf250bbc47c0aa04b3f8a6e3c042db081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 040/105] fix: keep a copy of the injected parameters

---
 bilby/gw/detector/interferometer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/interferometer.py b/bilby/gw/detector/interferometer.py
index ac0c148..3dedcde 100644
--- a/bilby/gw/detector/interferometer.py
+++ b/bilby/gw/detector/interferometer.py
@@ -483,7 +483,7 @@ class Interferometer(object):
             np.sqrt(self.optimal_snr_squared(signal=signal_ifo)).real)
         self.meta_data['matched_filter_SNR'] = (
             self.matched_filter_snr(signal=signal_ifo))
-        self.meta_data['parameters'] = parameters
+        self.meta_data['parameters'] = dict(parameters)
 
         logger.info("Injected signal in {}:".format(self.name))
         logger.info("  optimal SNR = {:.2f}".format(self.meta_data['optimal_SNR']))
-- 
2.43.0


From 3e7b7b4eacfb308c1c3223a89a65d206226c2e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 041/105] fix: write a pickled Interferometer to the requested
 directory

---
 bilby/gw/detector/interferometer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/detector/interferometer.py b/bilby/gw/detector/interferometer.py
index 3dedcde..8b9cf4c 100644
--- a/bilby/gw/detector/interferometer.py
+++ b/bilby/gw/detector/interferometer.py
@@ -898,7 +898,9 @@ class Interferometer(object):
         format="pickle", extra=".. versionadded:: 1.1.0"
     ))
     def to_pickle(self, outdir="outdir", label=None):
-        utils.check_directory_exists_and_if_not_mkdir('outdir')
+        if label is None:
+            label = self.name
+        utils.check_directory_exists_and_if_not_mkdir(outdir)
         filename = self._filename_from_outdir_label_extension(outdir, label, extension="pkl")
         safe_file_dump(self, filename, "dill")
 
-- 
2.43.0


From 2063c3ea471df0ee14c93d9bd88dfe68c34d9df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 042/105] fix: recompute the waveform whenever one of its
 inputs has changed

---
 bilby/gw/waveform_generator.py | 36 ++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/bilby/gw/waveform_generator.py b/bilby/gw/waveform_generator.py
index f85e42a..f7e13b5 100644
--- a/bilby/gw/waveform_generator.py
+++ b/bilby/gw/waveform_generator.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from ..core import utils
@@ -7,6 +9,19 @@ from .conversion import convert_to_lal_binary_black_hole_parameters
 from .utils import lalsim_GetApproximantFromString
 
 
+def _equal(a, b):
+    """ Whether two sets of inputs, which may contain arrays, are equal """
+    if a is b:
+        return True
+    if isinstance(a, dict) and isinstance(b, dict):
+        return a.keys() == b.keys() and all(_equal(a[key], b[key]) for key in a)
+    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
+        return len(a) == len(b) and all(_equal(x, y) for x, y in zip(a, b))
+    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+        return np.array_equal(a, b)
+    return a == b
+
+
 class WaveformGenerator(object):
     """
     The base waveform generator class.
@@ -74,7 +89,7 @@ class WaveformGenerator(object):
             self.waveform_arguments = dict()
         if isinstance(parameters, dict):
             self.parameters = parameters
-        self._cache = dict(parameters=None, waveform=None, model=None)
+        self._cache = dict(inputs=None, waveform=None)
         utils.logger.info(
             "Waveform generator initiated with\n"
             "  frequency_domain_source_model: {}\n"
@@ -169,9 +184,13 @@ class WaveformGenerator(object):
                           transformed_model_data_points, parameters):
         if parameters is not None:
             self.parameters = parameters
-        if self.parameters == self._cache['parameters'] and self._cache['model'] == model and \
-                self._cache['transformed_model'] == transformed_model:
-            return self._cache['waveform']
+        else:
+            self.parameters.update(self.waveform_arguments)
+        inputs = dict(
+            parameters=self.parameters, model=model, transformed_model=transformed_model,
+            data_points=(model_data_points, transformed_model_data_points))
+        if _equal(inputs, self._cache['inputs']):
+            return copy.copy(self._cache['waveform'])
         if model is not None:
             model_strain = self._strain_from_model(model_data_points, model)
         elif transformed_model is not None:
@@ -179,10 +198,11 @@ class WaveformGenerator(object):
                                                                transformation_function)
         else:
             raise RuntimeError("No source model given")
-        self._cache['waveform'] = model_strain
-        self._cache['parameters'] = self.parameters.copy()
-        self._cache['model'] = model
-        self._cache['transformed_model'] = transformed_model
+        inputs['parameters'] = {
+            key: copy.deepcopy(value) if isinstance(value, (np.ndarray, list, dict)) else value
+            for key, value in self.parameters.items()}
+        self._cache['waveform'] = copy.copy(model_strain)
+        self._cache['inputs'] = inputs
         return model_strain
 
     def _strain_from_model(self, model_data_points, model):
-- 
2.43.0


From 637116c2766a33eccec4508eaea8160131660cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 043/105] fix: do not share the cached power spectral density
 with the caller

---
 bilby/gw/detector/psd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/detector/psd.py b/bilby/gw/detector/psd.py
index a3948f9..d51e3d4 100644
--- a/bilby/gw/detector/psd.py
+++ b/bilby/gw/detector/psd.py
@@ -60,7 +60,7 @@ class PowerSpectralDensity(object):
         psd_array = self.power_spectral_density_interpolated(frequency_array)
         self._cache['psd_array'] = psd_array
         self._cache['asd_array'] = psd_array**0.5
-        self._cache['frequency_array'] = frequency_array
+        self._cache['frequency_array'] = np.array(frequency_array)
 
     def __eq__(self, other):
         if self.psd_file == other.psd_file \
@@ -244,12 +244,12 @@ class PowerSpectralDensity(object):
     def get_power_spectral_density_array(self, frequency_array):
         if not np.array_equal(frequency_array, self._cache['frequency_array']):
             self._update_cache(frequency_array=frequency_array)
-        return self._cache['psd_array']
+        return self._cache['psd_array'].copy()
 
     def get_amplitude_spectral_density_array(self, frequency_array):
         if not np.array_equal(frequency_array, self._cache['frequency_array']):
             self._update_cache(frequency_array=frequency_array)
-        return self._cache['asd_array']
+        return self._cache['asd_array'].copy()
 
     @property
     def power_spectral_density_interpolated(self):
-- 
2.43.0


From f33af143b6983706d2a7eef5bc9be85b11c2762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 044/105] fix: match calibration parameters by their own prefix
 only

---
 bilby/gw/detector/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/calibration.py b/bilby/gw/detector/calibration.py
index 51f776c..639aa1c 100644
--- a/bilby/gw/detector/calibration.py
+++ b/bilby/gw/detector/calibration.py
@@ -143,7 +143,7 @@ class Recalibrate(object):
 
     def set_calibration_parameters(self, **params):
         self.params.update({key[len(self.prefix):]: params[key] for key in params
-                            if self.prefix in key})
+                            if key.startswith(self.prefix)})
 
     def __eq__(self, other):
         return self.__dict__ == other.__dict__
-- 
2.43.0


From f58ea1774481c85ad71e82b617c57d2dc521e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 045/105] fix: use a given distance lookup table only if it
 matches

---
 bilby/gw/likelihood/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index d04b28d..a7d9d5f 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -884,7 +884,8 @@ class GravitationalWaveTransient(Likelihood):
             lookup_table = self.load_lookup_table(
                 self.cached_lookup_table_filename)
         if isinstance(lookup_table, dict):
-            if self._test_cached_lookup_table(lookup_table):
+            match, _ = self._test_cached_lookup_table(lookup_table)
+            if match:
                 self._dist_margd_loglikelihood_array = lookup_table[
                     'lookup_table']
             else:
-- 
2.43.0


From 1111c42d11fdd0654aef2943ac10582c6d033ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 046/105] fix: do not use the cached probability of other data

---
 bilby/hyper/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bilby/hyper/model.py b/bilby/hyper/model.py
index 3e84fbb..887fe08 100644
--- a/bilby/hyper/model.py
+++ b/bilby/hyper/model.py
@@ -24,14 +24,16 @@ class Model:
             inspection or querying a :code:`variable_names` attribute.
         cache: bool
             Whether to cache the value returned by the model functions,
-            default=:code:`True`. The caching only looks at the parameters
-            not the data, so should be used with caution. The caching also
+            default=:code:`True`. The caching looks at the parameters and at
+            which data object is given, but not for changes made to the data
+            in place, so should be used with caution. The caching also
             breaks :code:`jax` JIT compilation.
         """
         self.models = model_functions
         self.cache = cache
         self._cached_parameters = {model: None for model in self.models}
         self._cached_probability = {model: None for model in self.models}
+        self._cached_data = {model: None for model in self.models}
 
         self.parameters = dict()
 
@@ -56,6 +58,7 @@ class Model:
             function_parameters = self._get_function_parameters(function)
             if (
                 self.cache
+                and self._cached_data[function] is data
                 and self._cached_parameters[function] == function_parameters
             ):
                 new_probability = self._cached_probability[function]
@@ -66,6 +69,7 @@ class Model:
                 if self.cache:
                     self._cached_parameters[function] = function_parameters
                     self._cached_probability[function] = new_probability
+                    self._cached_data[function] = data
             probability *= new_probability
         return probability
 
-- 
2.43.0


From af78f0acecfdc8ad0a3b5faf924d1c8258a939ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 047/105] fix: do not rescale the cached waveform

---
 bilby/gw/likelihood/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index a7d9d5f..1c25513 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -653,8 +653,8 @@ class GravitationalWaveTransient(Likelihood):
         """
         self.parameters.update(self.get_sky_frame_parameters())
         if signal_polarizations is None:
-            signal_polarizations = \
-                self.waveform_generator.frequency_domain_strain(self.parameters)
+            signal_polarizations = copy.deepcopy(
+                self.waveform_generator.frequency_domain_strain(self.parameters))
 
         d_inner_h, h_inner_h = self._calculate_inner_products(signal_polarizations)
 
-- 
2.43.0


From d3d2d71bcc7dcca5ee67efeb31163e8a7787a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 048/105] fix: leave the parameters of a marginalized
 likelihood as they were after reconstruction

---
 bilby/gw/likelihood/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 1c25513..f5ee713 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -494,12 +494,13 @@ class GravitationalWaveTransient(Likelihood):
         This involves a deepcopy of the signal to avoid issues with waveform
         caching, as the signal is overwritten in place.
         """
+        original_parameters = self.parameters.copy()
         if len(self._marginalized_parameters) > 0:
             signal_polarizations = copy.deepcopy(
                 self.waveform_generator.frequency_domain_strain(
                     self.parameters))
         else:
-            return self.parameters
+            return original_parameters
 
         if self.calibration_marginalization:
             new_calibration = self.generate_calibration_sample_from_marginalized_likelihood(
@@ -517,7 +518,11 @@ class GravitationalWaveTransient(Likelihood):
             new_phase = self.generate_phase_sample_from_marginalized_likelihood(
                 signal_polarizations=signal_polarizations)
             self.parameters['phase'] = new_phase
-        return self.parameters.copy()
+        new_parameters = self.parameters.copy()
+        # the reconstructed values must not enter later evaluations
+        self.parameters.clear()
+        self.parameters.update(original_parameters)
+        return new_parameters
 
     def generate_calibration_sample_from_marginalized_likelihood(
             self, signal_polarizations=None):
-- 
2.43.0


From 672b8cda549f008ca6f3ed7d5fed7dbb3f4cf14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:07 +0000
Subject: [PATCH 049/105] fix: share the parameters of a JointLikelihood with
 all its members however they are set

---
 bilby/core/likelihood.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bilby/core/likelihood.py b/bilby/core/likelihood.py
index 7b90e21..ad26e3c 100644
--- a/bilby/core/likelihood.py
+++ b/bilby/core/likelihood.py
@@ -530,17 +530,27 @@ class JointLikelihood(Likelihood):
         *likelihoods: bilby.core.likelihood.Likelihood
             likelihoods to be combined parsed as arguments
         """
-        self.likelihoods = likelihoods
+        self._likelihoods = []
         super(JointLikelihood, self).__init__(parameters={})
-        self.__sync_parameters()
+        self.likelihoods = likelihoods
+
+    @property
+    def parameters(self):
+        """ The dictionary of parameters, shared by all likelihoods """
+        return self._parameters
+
+    @parameters.setter
+    def parameters(self, parameters):
+        self._parameters = parameters
+        for likelihood in self.likelihoods:
+            likelihood.parameters = parameters
 
     def __sync_parameters(self):
         """ Synchronizes parameters between the likelihoods
         so that all likelihoods share a single parameter dict."""
         for likelihood in self.likelihoods:
             self.parameters.update(likelihood.parameters)
-        for likelihood in self.likelihoods:
-            likelihood.parameters = self.parameters
+        self.parameters = self.parameters
 
     @property
     def likelihoods(self):
@@ -560,6 +570,7 @@ class JointLikelihood(Likelihood):
             self._likelihoods = [likelihoods]
         else:
             raise ValueError('Input likelihood is not a list of tuple. You need to set multiple likelihoods.')
+        self.__sync_parameters()
 
     def log_likelihood(self):
         """ This is just the sum of the log likelihoods of all parts of the joint likelihood"""
-- 
2.43.0


From d21543b9eac45e71afd1061daf2d8f8b18c7c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:07 +0000
Subject: [PATCH 050/105] fix: normalise the hyperparameter likelihood by the
 number of samples in use

---
 bilby/hyper/likelihood.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bilby/hyper/likelihood.py b/bilby/hyper/likelihood.py
index c5ea8b0..6fe83be 100644
--- a/bilby/hyper/likelihood.py
+++ b/bilby/hyper/likelihood.py
@@ -55,9 +55,14 @@ class HyperparameterLikelihood(Likelihood):
 
         self.data = self.resample_posteriors()
         self.n_posteriors = len(self.posteriors)
-        self.samples_per_posterior = self.max_samples
-        self.samples_factor =\
-            - self.n_posteriors * np.log(self.samples_per_posterior)
+
+    @property
+    def samples_per_posterior(self):
+        return np.shape(self.data['prior'])[-1]
+
+    @property
+    def samples_factor(self):
+        return - self.n_posteriors * np.log(self.samples_per_posterior)
 
     def log_likelihood_ratio(self):
         self.hyper_prior.parameters.update(self.parameters)
-- 
2.43.0


From 3a0a4454061d8370e1575c93c301f0d5f2ce182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:07 +0000
Subject: [PATCH 051/105] fix: draw the samples of the hyperparameter
 likelihood from the bilby generator

---
 bilby/hyper/likelihood.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/hyper/likelihood.py b/bilby/hyper/likelihood.py
index 6fe83be..2559cd9 100644
--- a/bilby/hyper/likelihood.py
+++ b/bilby/hyper/likelihood.py
@@ -6,6 +6,7 @@ import numpy as np
 from ..core.likelihood import Likelihood
 from .model import Model
 from ..core.prior import PriorDict
+from ..core.utils import random
 
 
 class HyperparameterLikelihood(Likelihood):
@@ -104,7 +105,7 @@ class HyperparameterLikelihood(Likelihood):
         logging.debug('Downsampling to {} samples per posterior.'.format(
             self.max_samples))
         for posterior in self.posteriors:
-            temp = posterior.sample(self.max_samples)
+            temp = posterior.sample(self.max_samples, random_state=random.rng)
             if self.sampling_prior is not None:
                 temp['prior'] = self.sampling_prior.prob(temp, axis=0)
             elif 'log_prior' in temp.keys():
-- 
2.43.0


From 8925f74fad828628b3f835dff63258d706f66425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:55 +0000
Subject: [PATCH 052/105] fix: keep the label and outdir of a grid which is not
 saved at once

---
 bilby/core/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bilby/core/grid.py b/bilby/core/grid.py
index 4e88168..f1bfd0f 100644
--- a/bilby/core/grid.py
+++ b/bilby/core/grid.py
@@ -83,11 +83,11 @@ class Grid(object):
         self.save = save
         self.label = None
         self.outdir = None
+        if isinstance(label, str):
+            self.label = label
+        if isinstance(outdir, str):
+            self.outdir = os.path.abspath(outdir)
         if self.save:
-            if isinstance(label, str):
-                self.label = label
-            if isinstance(outdir, str):
-                self.outdir = os.path.abspath(outdir)
             self.save_to_file(gzip=gzip)
 
     @property
-- 
2.43.0


From 1361391fcb988c4faeb0c974e5223fa17dea764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:55 +0000
Subject: [PATCH 053/105] fix: evaluate grids on points given as a list

---
 bilby/core/grid.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bilby/core/grid.py b/bilby/core/grid.py
index f1bfd0f..325bda1 100644
--- a/bilby/core/grid.py
+++ b/bilby/core/grid.py
@@ -304,20 +304,17 @@ class Grid(object):
 
     def _evaluate(self):
         self._ln_likelihood = np.empty(self.mesh_grid[0].shape)
-        self._evaluate_recursion(0)
+        self._evaluate_recursion(0, tuple())
         self.ln_noise_evidence = self.likelihood.noise_log_likelihood()
 
-    def _evaluate_recursion(self, dimension):
+    def _evaluate_recursion(self, dimension, current_point):
         if dimension == self.n_dims:
-            current_point = tuple([[int(np.where(
-                self.likelihood.parameters[name] ==
-                self.sample_points[name])[0])] for name in self.parameter_names])
             self._ln_likelihood[current_point] = self.likelihood.log_likelihood()
         else:
             name = self.parameter_names[dimension]
             for ii in range(self._ln_likelihood.shape[dimension]):
                 self.likelihood.parameters[name] = self.sample_points[name][ii]
-                self._evaluate_recursion(dimension + 1)
+                self._evaluate_recursion(dimension + 1, current_point + (ii,))
 
     def _get_sample_points(self, grid_size):
         for ii, key in enumerate(self.parameter_names):
-- 
2.43.0


From be53a0da581a01da018caf5357949424385ce050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 054/105] fix: keep a checkpoint whole when its writing is
 interrupted by another write

---
 bilby/core/utils/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index ee0b28c..4428bd4 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -391,9 +391,13 @@ def safe_file_dump(data, filename, module):
     if isinstance(module, str):
         module = import_module(module)
     temp_filename = filename + ".temp"
+    # use a new file, a write that was interrupted by this one may still hold
+    # the previous one
+    if os.path.isfile(temp_filename):
+        os.remove(temp_filename)
     with open(temp_filename, "wb") as file:
         module.dump(data, file)
-    shutil.move(temp_filename, filename)
+    os.replace(temp_filename, filename)
 
 
 def move_old_file(filename, overwrite=False):
-- 
2.43.0


From 59c06530a4d5833324c2ef52b9389babdcb98826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:00 +0000
Subject: [PATCH 055/105] fix: start dynesty afresh when the resume file can
 not be loaded

---
 bilby/core/sampler/dynesty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 7c1543f..7d59271 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -747,7 +747,8 @@ class Dynesty(NestedSampler):
             with open(self.resume_file, "rb") as file:
                 try:
                     sampler = dill.load(file)
-                except EOFError:
+                except Exception as e:
+                    logger.warning(f"Failed to load the resume file: {e!r}")
                     sampler = None
 
                 if not hasattr(sampler, "versions"):
-- 
2.43.0


From fb54aea7fc6a0aeb63ab744ee286807ba3bb6028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:00 +0000
Subject: [PATCH 056/105] fix: keep all iterations when dynesty was interrupted
 while adding the live points

---
 bilby/core/sampler/dynesty.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 7d59271..b57fe24 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -719,6 +719,24 @@ class Dynesty(NestedSampler):
         if os.path.isfile(self.resume_file):
             os.remove(self.resume_file)
 
+    def _remove_saved_live_points(self):
+        """
+        Remove everything that was recorded beyond the completed iterations.
+
+        These are the final live points. A state that was written when the run
+        was interrupted may contain only some of them, so their number is taken
+        from the number of iterations.
+        """
+        n_dead = self.sampler.it - 1
+        for key in self.sampler.saved_run.keys():
+            values = self.sampler.saved_run[key]
+            if len(values) < n_dead:
+                # this quantity is only recorded for the live points
+                values.clear()
+            else:
+                del values[n_dead:]
+        self.sampler.added_live = False
+
     def read_saved_state(self, continuing=False):
         """
         Read a pickled saved state of the sampler to disk.
@@ -774,8 +792,8 @@ class Dynesty(NestedSampler):
                         )
                 del sampler.versions
                 self.sampler = sampler
-                if getattr(self.sampler, "added_live", False) and continuing:
-                    self.sampler._remove_live_points()
+                if hasattr(self.sampler, "added_live") and continuing:
+                    self._remove_saved_live_points()
                 self.sampler.nqueue = -1
                 self.start_time = self.sampler.kwargs.pop("start_time")
                 self.sampling_time = self.sampler.kwargs.pop("sampling_time")
-- 
2.43.0


From 8cb27d762373b2afb8e576aa3eeb1b08a5de7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:00 +0000
Subject: [PATCH 057/105] fix: do not count the time since the last checkpoint
 when interrupted on resuming

---
 bilby/core/sampler/dynesty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index b57fe24..91f0a7e 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -795,7 +795,8 @@ class Dynesty(NestedSampler):
                 if hasattr(self.sampler, "added_live") and continuing:
                     self._remove_saved_live_points()
                 self.sampler.nqueue = -1
-                self.start_time = self.sampler.kwargs.pop("start_time")
+                self.sampler.kwargs.pop("start_time")
+                self.start_time = datetime.datetime.now()
                 self.sampling_time = self.sampler.kwargs.pop("sampling_time")
                 self.sampler.queue_size = self.kwargs["queue_size"]
                 self.sampler.pool = self.pool
-- 
2.43.0


From 05a312d877653e07d0f0e4076c0e44e77cb2f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:37 +0000
Subject: [PATCH 058/105] fix: resume dynesty runs which were interrupted
 before the first iteration

---
 bilby/core/sampler/dynesty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 91f0a7e..f775ccd 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -795,9 +795,11 @@ class Dynesty(NestedSampler):
                 if hasattr(self.sampler, "added_live") and continuing:
                     self._remove_saved_live_points()
                 self.sampler.nqueue = -1
-                self.sampler.kwargs.pop("start_time")
+                self.sampler.kwargs.pop("start_time", None)
                 self.start_time = datetime.datetime.now()
-                self.sampling_time = self.sampler.kwargs.pop("sampling_time")
+                self.sampling_time = self.sampler.kwargs.pop(
+                    "sampling_time", datetime.timedelta()
+                )
                 self.sampler.queue_size = self.kwargs["queue_size"]
                 self.sampler.pool = self.pool
                 if self.pool is not None:
-- 
2.43.0


From 5fb00c8e6fe995ca702298c5bae915357cc39359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 059/105] fix: do not read the Bilby-MCMC resume file when
 resuming is switched off

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index c8ccf25..b9ba425 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -296,7 +296,7 @@ class Bilby_MCMC(MCMCSampler):
         return result
 
     def setup_chain_set(self):
-        if self.read_current_state() and self.resume is True:
+        if self.resume is True and self.read_current_state():
             self.ptsampler.pool = self.pool
         else:
             self.init_ptsampler()
-- 
2.43.0


From 4caa0723925bc9094ee250592e2ff61e00aa28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 060/105] fix: start Bilby-MCMC afresh when the resume file can
 not be loaded

---
 bilby/bilby_mcmc/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index b9ba425..92c745e 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -395,7 +395,11 @@ class Bilby_MCMC(MCMCSampler):
         import dill
 
         with open(self.resume_file, "rb") as file:
-            ptsampler = dill.load(file)
+            try:
+                ptsampler = dill.load(file)
+            except Exception as e:
+                logger.warning(f"Failed to load the resume file: {e!r}")
+                return False
             if not isinstance(ptsampler, BilbyPTMCMCSampler):
                 logger.debug("Malformed resume file, ignoring")
                 return False
-- 
2.43.0


From 93bf1fea778002291c58cf37b4965319741ce092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 061/105] fix: count whole days in the sampling time reported
 by Bilby-MCMC

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 92c745e..1b35b8a 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -289,7 +289,7 @@ class Bilby_MCMC(MCMCSampler):
         result.meta_data["run_statistics"] = dict(
             nlikelihood=ptsampler.position * ptsampler.L1steps * ptsampler._nsamplers,
             neffsamples=ptsampler.nsamples * ptsampler.convergence_inputs.thin_by_nact,
-            sampling_time_s=result.sampling_time.seconds,
+            sampling_time_s=int(result.sampling_time.total_seconds()),
             ncores=npool,
         )
 
-- 
2.43.0


From 470df252ecbdd1e644552741c806d3ef42699f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 062/105] fix: resume Bilby-MCMC runs with the initial betas
 given as an array

---
 bilby/bilby_mcmc/sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 1b35b8a..70d62a6 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -202,6 +202,11 @@ class Bilby_MCMC(MCMCSampler):
         self.pt_inputs = ParallelTemperingInputs(
             **{key: self.kwargs[key] for key in ParallelTemperingInputs._fields}
         )
+        if self.pt_inputs.initial_betas is not None:
+            # the inputs are compared when resuming, which arrays do not support
+            self.pt_inputs = self.pt_inputs._replace(
+                initial_betas=[float(beta) for beta in self.pt_inputs.initial_betas]
+            )
         self.convergence_inputs = ConvergenceInputs(
             **{key: self.kwargs[key] for key in ConvergenceInputs._fields}
         )
-- 
2.43.0


From 3f0da043e02c54e5fded758c4b02b4a73fa977ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:02 +0000
Subject: [PATCH 063/105] fix: never checkpoint a step which is not yet stored
 in the chain

---
 bilby/bilby_mcmc/chain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bilby/bilby_mcmc/chain.py b/bilby/bilby_mcmc/chain.py
index 8fb59d3..5b0910d 100644
--- a/bilby/bilby_mcmc/chain.py
+++ b/bilby/bilby_mcmc/chain.py
@@ -98,15 +98,17 @@ class Chain(object):
         self._current_sample = current_sample
 
     def append(self, sample):
-        self.position += 1
+        position = self.position + 1
 
         # Extend the array if needed
-        if self.position >= self._chain_array_length:
+        if position >= self._chain_array_length:
             self._extend_chain_array()
 
-        # Store the current sample and append to the array
+        # Store the current sample and append to the array. The position is
+        # moved last, as a signal may write a checkpoint at any point.
         self.current_sample = sample
-        self._chain_array[self.position] = sample.list
+        self._chain_array[position] = sample.list
+        self.position = position
 
         # Update the maximum log_likelihood
         if sample[LOGLKEY] > self.max_log_likelihood:
-- 
2.43.0


From 81d014c1d6b04005d996a568341628867f74806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:19 +0000
Subject: [PATCH 064/105] fix: resume reweighting from the first sample which
 is not evaluated

---
 bilby/core/result.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index a2e6bfb..d815e2c 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -187,20 +187,17 @@ def get_weights_for_reweighting(
 
     nposterior = len(result.posterior)
 
-    if (resume_file is not None) and os.path.exists(resume_file):
-        old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array = \
-            np.genfromtxt(resume_file)
+    # Samples which are not evaluated yet are marked with NaN
+    arrays = np.full((4, nposterior), np.nan)
+    starting_index = 0
 
-        starting_index = np.argmin(np.abs(old_log_likelihood_array))
+    if (resume_file is not None) and os.path.exists(resume_file):
+        arrays = np.genfromtxt(resume_file).reshape((4, nposterior))
+        incomplete = np.isnan(arrays).any(axis=0)
+        starting_index = int(np.argmax(incomplete)) if incomplete.any() else nposterior
         logger.info(f'Checkpoint resuming from {starting_index}.')
 
-    else:
-        old_log_likelihood_array = np.zeros(nposterior)
-        old_log_prior_array = np.zeros(nposterior)
-        new_log_likelihood_array = np.zeros(nposterior)
-        new_log_prior_array = np.zeros(nposterior)
-
-        starting_index = 0
+    old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array = arrays
 
     dict_samples = [{key: sample[key] for key in result.posterior}
                     for _, sample in result.posterior.iterrows()]
@@ -251,11 +248,13 @@ def get_weights_for_reweighting(
             new_log_prior_array[ii] = old_log_prior_array[ii]
 
         if (ii % (n_checkpoint) == 0) and (resume_file is not None):
-            checkpointed_index = np.argmin(np.abs(old_log_likelihood_array))
-            logger.info(f'Checkpointing with {checkpointed_index} samples')
-            np.savetxt(
-                resume_file,
-                [old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array])
+            logger.info(f'Checkpointing with {ii + 1} samples')
+            checkpoint = arrays.copy()
+            checkpoint[:, ii + 1:] = np.nan
+            temporary_file = f"{resume_file}.temp"
+            with open(temporary_file, "w") as file:
+                np.savetxt(file, checkpoint)
+            os.replace(temporary_file, resume_file)
 
     ln_weights = (
         new_log_likelihood_array + new_log_prior_array - old_log_likelihood_array - old_log_prior_array)
-- 
2.43.0


From 9d87e99c44c704ea967e824f71ab6acaa0db5e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:19 +0000
Subject: [PATCH 065/105] fix: leave the original result unchanged when
 reweighting

---
 bilby/core/result.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index d815e2c..426c822 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -337,9 +337,9 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
     from scipy.special import logsumexp
 
     result = copy(result)
-
-    if use_nested_samples:
-        result.posterior = result.nested_samples
+    # do not overwrite the original result
+    result.posterior = (result.nested_samples if use_nested_samples else result.posterior).copy()
+    result.meta_data = copy(result.meta_data)
 
     nposterior = len(result.posterior)
     logger.info("Reweighting posterior with {} samples".format(nposterior))
@@ -370,6 +370,7 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
         result.log_evidence += logsumexp(ln_weights) - np.log(nposterior)
 
     if new_prior is not None:
+        result.priors = result.priors.copy()
         for key, prior in new_prior.items():
             result.priors[key] = prior
 
-- 
2.43.0


From 47e8aac35085a735026fbcc8091f6a5e3b6654cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:39 +0000
Subject: [PATCH 066/105] fix: reweight results whose weights under- or
 overflow

---
 bilby/core/result.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 426c822..df7cc63 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -359,13 +359,15 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
     result.posterior["log_likelihood"] = new_log_likelihood_array
     result.posterior["log_prior"] = new_log_prior_array
 
-    result.posterior = rejection_sample(result.posterior, weights=weights)
+    # only the relative size of the weights matters, which must not under- or overflow
+    relative_weights = np.exp(ln_weights - np.max(ln_weights)) if np.max(ln_weights) > -np.inf else weights
+    result.posterior = rejection_sample(result.posterior, weights=relative_weights)
     result.posterior = result.posterior.reset_index(drop=True)
     logger.info("Rejection sampling resulted in {} samples".format(len(result.posterior)))
     result.meta_data["reweighted_using_rejection_sampling"] = True
 
     if use_nested_samples:
-        result.log_evidence += np.log(np.sum(weights))
+        result.log_evidence += logsumexp(ln_weights)
     else:
         result.log_evidence += logsumexp(ln_weights) - np.log(nposterior)
 
-- 
2.43.0


From acd824b362006f1b31adfecf1a3c5cea0506e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:16 +0000
Subject: [PATCH 067/105] fix: refuse to combine results with priors for
 different parameters

---
 bilby/core/result.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index df7cc63..863a3d3 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1792,7 +1792,7 @@ class ResultList(list):
         """
         super(ResultList, self).__init__()
         self.consistency_level = consistency_level
-        for result in results:
+        for result in results or []:
             self.append(result)
 
     def append(self, result):
@@ -1978,10 +1978,11 @@ class ResultList(list):
 
     def check_consistent_priors(self):
         for res in self:
-            for p in self[0].priors.keys():
-                if not self[0].priors[p] == res.priors[p] or len(self[0].priors) != len(res.priors):
-                    msg = "Inconsistent priors between results"
-                    self._error_or_warning_consistency(msg)
+            if set(self[0].priors) != set(res.priors) or any(
+                not self[0].priors[p] == res.priors[p] for p in self[0].priors
+            ):
+                msg = "Inconsistent priors between results"
+                self._error_or_warning_consistency(msg)
 
     def check_consistent_parameters(self):
         if not np.all([set(self[0].search_parameter_keys) == set(res.search_parameter_keys) for res in self]):
-- 
2.43.0


From 4d8710c6112e4968feb344125a1777de4f6f04b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:16 +0000
Subject: [PATCH 068/105] fix: shuffle combined results with the bilby
 generator

---
 bilby/core/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 863a3d3..2d32083 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1863,7 +1863,7 @@ class ResultList(list):
         combined_posteriors = pd.concat(posteriors, ignore_index=True)
 
         if shuffle:
-            result.posterior = combined_posteriors.sample(len(combined_posteriors))
+            result.posterior = combined_posteriors.sample(len(combined_posteriors), random_state=random.rng)
         else:
             result.posterior = combined_posteriors
 
-- 
2.43.0


From a4896ca40cc09734e36188f040a4d78a0633d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:27 +0000
Subject: [PATCH 069/105] fix: refuse to combine results with and without
 nested samples in any order

---
 bilby/core/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 2d32083..c1a5d63 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1853,7 +1853,7 @@ class ResultList(list):
         self.check_consistent_priors()
 
         # check which kind of sampler was used: MCMC or Nested Sampling
-        if result._nested_samples is not None:
+        if any(res._nested_samples is not None for res in self):
             posteriors, result = self._combine_nested_sampled_runs(result)
         elif result.sampler in ["bilby_mcmc", "bilbymcmc"]:
             posteriors, result = self._combine_mcmc_sampled_runs(result)
-- 
2.43.0


From c15ce760d7a4d23fe52a975a1f79db66211e8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:05 +0000
Subject: [PATCH 070/105] fix: draw all random numbers of proposals, resampling
 and plots from the bilby generator

---
 bilby/bilby_mcmc/proposals.py  | 7 +++++--
 bilby/core/result.py           | 2 +-
 bilby/core/sampler/dynesty.py  | 2 +-
 bilby/core/sampler/nestle.py   | 6 +++++-
 bilby/core/sampler/proposal.py | 8 +++++---
 bilby/gw/prior.py              | 4 ++--
 bilby/gw/result.py             | 6 +++---
 7 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 62959e2..c530dad 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -541,7 +541,7 @@ class KDEProposal(DensityEstimateProposal):
         return self.density.logpdf(point)[0]
 
     def _sample(self, nsamples=None):
-        return np.atleast_1d(np.squeeze(self.density.resample(nsamples)))
+        return np.atleast_1d(np.squeeze(self.density.resample(nsamples, seed=random.rng)))
 
 
 class GMMProposal(DensityEstimateProposal):
@@ -551,7 +551,10 @@ class GMMProposal(DensityEstimateProposal):
     def _fit(self, dataset):
         from sklearn.mixture import GaussianMixture
 
-        density = GaussianMixture(n_components=10)
+        density = GaussianMixture(
+            n_components=10,
+            random_state=np.random.RandomState(random.rng.integers(2**32)),
+        )
         density.fit(dataset.T)
         return density
 
diff --git a/bilby/core/result.py b/bilby/core/result.py
index c1a5d63..5060761 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1411,7 +1411,7 @@ class Result(object):
         fig, ax = plt.subplots()
         logger.info('Plotting {} draws'.format(ndraws))
         for _ in range(ndraws):
-            s = model_posterior.sample().to_dict('records')[0]
+            s = model_posterior.sample(random_state=random.rng).to_dict('records')[0]
             ax.plot(xsmooth, model(xsmooth, **s), alpha=0.25, lw=0.1, color='r',
                     label=draws_label)
         try:
diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index f775ccd..c719774 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -632,7 +632,7 @@ class Dynesty(NestedSampler):
                 f"Rejection sampling nested samples to obtain {sum(keep)} posterior samples"
             )
         else:
-            self.result.samples = dynesty.utils.resample_equal(out.samples, weights)
+            self.result.samples = dynesty.utils.resample_equal(out.samples, weights, rstate=rng)
             self.result.log_likelihood_evaluations = self.reorder_loglikelihoods(
                 unsorted_loglikelihoods=out.logl,
                 unsorted_samples=out.samples,
diff --git a/bilby/core/sampler/nestle.py b/bilby/core/sampler/nestle.py
index 75d93bf..0898ae0 100644
--- a/bilby/core/sampler/nestle.py
+++ b/bilby/core/sampler/nestle.py
@@ -1,5 +1,7 @@
+import numpy as np
 from pandas import DataFrame
 
+from ..utils import random
 from .base_sampler import NestedSampler, signal_wrapper
 
 
@@ -85,7 +87,9 @@ class Nestle(NestedSampler):
         print("")
 
         self.result.sampler_output = out
-        self.result.samples = nestle.resample_equal(out.samples, out.weights)
+        self.result.samples = nestle.resample_equal(
+            out.samples, out.weights, rstate=np.random.RandomState(random.rng.integers(2**32))
+        )
         self.result.nested_samples = DataFrame(
             out.samples, columns=self.search_parameter_keys
         )
diff --git a/bilby/core/sampler/proposal.py b/bilby/core/sampler/proposal.py
index 1db745c..75ccde9 100644
--- a/bilby/core/sampler/proposal.py
+++ b/bilby/core/sampler/proposal.py
@@ -202,7 +202,7 @@ class NormJump(JumpProposal):
 class EnsembleWalk(JumpProposal):
     def __init__(
         self,
-        random_number_generator=random.rng.uniform,
+        random_number_generator=None,
         n_points=3,
         priors=None,
         **random_number_generator_args
@@ -213,7 +213,8 @@ class EnsembleWalk(JumpProposal):
         Parameters
         ==========
         random_number_generator: func, optional
-            A random number generator. Default is random.random
+            A random number generator. Default is the uniform
+            distribution of the bilby generator.
         n_points: int, optional
             Number of points in the ensemble to average over. Default is 3.
         priors:
@@ -234,7 +235,8 @@ class EnsembleWalk(JumpProposal):
             )
         center_of_mass = self.get_center_of_mass(subset)
         for x in subset:
-            sample += (x - center_of_mass) * self.random_number_generator(
+            random_number_generator = self.random_number_generator or random.rng.uniform
+            sample += (x - center_of_mass) * random_number_generator(
                 **self.random_number_generator_args
             )
         return super(EnsembleWalk, self).__call__(sample)
diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index b353c60..67e6797 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -74,7 +74,7 @@ def convert_to_flat_in_component_mass_prior(result, fraction=0.25):
                                                        prior_names=['chirp_mass', 'mass_ratio', 'mass_1', 'mass_2']))
     jacobian = posterior["mass_1"] ** 2 / posterior["chirp_mass"]
     weights = jacobian * weights
-    result.posterior = posterior.sample(frac=fraction, weights=weights)
+    result.posterior = posterior.sample(frac=fraction, weights=weights, random_state=random.rng)
 
     logger.info("Resampling posterior to flat-in-component mass")
     effective_sample_size = sum(weights)**2 / sum(weights**2)
@@ -86,7 +86,7 @@ def convert_to_flat_in_component_mass_prior(result, fraction=0.25):
             "biased results"
             .format(n_posterior, fraction, effective_sample_size / n_posterior)
         )
-    result.posterior = posterior.sample(frac=fraction, weights=weights, replace=True)
+    result.posterior = posterior.sample(frac=fraction, weights=weights, replace=True, random_state=random.rng)
     result.meta_data["reweighted_to_flat_in_component_mass"] = True
     return result
 
diff --git a/bilby/gw/result.py b/bilby/gw/result.py
index cc9f97e..566ca6b 100644
--- a/bilby/gw/result.py
+++ b/bilby/gw/result.py
@@ -7,7 +7,7 @@ import numpy as np
 from ..core.result import Result as CoreResult
 from ..core.utils import (
     infft, logger, check_directory_exists_and_if_not_mkdir,
-    latex_plot_format, safe_file_dump, safe_save_figure,
+    latex_plot_format, random, safe_file_dump, safe_save_figure,
 )
 from .utils import plot_spline_pos, spline_angle_xform, asd_from_freq_series
 from .detector import get_empty_interferometer, Interferometer
@@ -354,7 +354,7 @@ class CompactBinaryCoalescenceResult(CoreResult):
             )
             samples = self.posterior
         else:
-            samples = self.posterior.sample(n_samples, replace=False)
+            samples = self.posterior.sample(n_samples, replace=False, random_state=random.rng)
 
         if start_time is None:
             start_time = - 0.4
@@ -757,7 +757,7 @@ class CompactBinaryCoalescenceResult(CoreResult):
 
         if maxpts is not None and maxpts < len(data):
             logger.info('Taking random subsample of chain')
-            data = data.sample(maxpts)
+            data = data.sample(maxpts, random_state=random.rng)
 
         default_obj_filename = os.path.join(self.outdir, '{}_skypost.obj'.format(self.label))
 
-- 
2.43.0


From 5ab66cc5b0e156d65b17ef5f5d7c68306df5d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 071/105] fix: add no masses when only mass_2 is known

---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index fe1688f..6a01e2e 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -1920,7 +1920,7 @@ def generate_component_masses(sample, require_add=False, source=False):
                     chirp_mass=output_sample[chirp_mass_key])
             )
         else:
-            check_and_return_quietly(require_add, sample)
+            return check_and_return_quietly(require_add, sample)
 
         output_sample[mass_1_key] = 1 / output_sample["mass_ratio"] * (
             output_sample[mass_2_key]
-- 
2.43.0


From ee22d7b94bf9af9c402f0bba4f76f1c1bf325f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 072/105] fix: convert source-frame masses given with the
 comoving distance

---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 6a01e2e..14003ba 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -221,7 +221,7 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
             if 'redshift' not in converted_parameters.keys():
                 converted_parameters['redshift'] =\
                     luminosity_distance_to_redshift(
-                        parameters['luminosity_distance'])
+                        converted_parameters['luminosity_distance'])
             converted_parameters[key[:-7]] = converted_parameters[key] * (
                 1 + converted_parameters['redshift'])
 
-- 
2.43.0


From 54ba618f3ccea5cc6416df0626be3b9e658945ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 073/105] fix: convert symmetric mass ratios which exceed one
 quarter by rounding

---
 bilby/gw/conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 14003ba..318ecf4 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -911,6 +911,8 @@ def symmetric_mass_ratio_to_mass_ratio(symmetric_mass_ratio):
     """
 
     temp = (1 / symmetric_mass_ratio / 2 - 1)
+    # the symmetric mass ratio of equal masses may exceed 1/4 by rounding
+    temp = np.where((temp < 1) & (temp > 1 - 1e-12), 1, temp)[()]
     return temp - (temp ** 2 - 1) ** 0.5
 
 
-- 
2.43.0


From 49e33b4057d2aac59b9bd5503e9ac0ee3cc570bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 074/105] fix: convert chirp mass and secondary mass of mass
 ratios below one third

---
 bilby/gw/conversion.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 318ecf4..a1d71b9 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -1088,11 +1088,15 @@ def mass_1_and_chirp_mass_to_mass_ratio(mass_1, chirp_mass):
         Mass ratio of the binary
     """
     temp = (chirp_mass / mass_1) ** 5
-    mass_ratio = (2 / 3 / (3 ** 0.5 * (27 * temp ** 2 - 4 * temp ** 3) ** 0.5 +
+    # there are three real solutions if the discriminant is negative
+    discriminant = np.maximum(27 * temp ** 2 - 4 * temp ** 3, 0)
+    mass_ratio = (2 / 3 / (3 ** 0.5 * discriminant ** 0.5 +
                            9 * temp)) ** (1 / 3) * temp + \
-                 ((3 ** 0.5 * (27 * temp ** 2 - 4 * temp ** 3) ** 0.5 +
+                 ((3 ** 0.5 * discriminant ** 0.5 +
                    9 * temp) / (2 * 3 ** 2)) ** (1 / 3)
-    return mass_ratio
+    largest = 2 * np.sqrt(temp / 3) * np.cos(
+        np.arccos(np.minimum(1.5 * np.sqrt(3 / temp), 1)) / 3)
+    return np.where(temp > 27 / 4, largest, mass_ratio)[()]
 
 
 def mass_2_and_chirp_mass_to_mass_ratio(mass_2, chirp_mass):
-- 
2.43.0


From c478d5576d05052ac50fbcb3466546bd0ac5f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 075/105] fix: keep the tilts of spinning samples when others
 have no spin

---
 bilby/gw/conversion.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index a1d71b9..68e5f1c 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -178,6 +178,12 @@ def transform_precessing_spins(*args):
     return lalsim_SimInspiralTransformPrecessingNewInitialConditions(*args)
 
 
+def _cos_tilt(chi, a):
+    """Cosine of the spin tilt from the aligned spin and the spin magnitude, one where there is no spin"""
+    with np.errstate(invalid="ignore", divide="ignore"):
+        return np.where(np.equal(chi, 0) & np.equal(a, 0), 1.0, np.divide(chi, a))[()]
+
+
 def convert_to_lal_binary_black_hole_parameters(parameters):
     """
     Convert parameters we have into parameters we need.
@@ -236,9 +242,9 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
                     converted_parameters[f"chi_{idx}"] ** 2
                     + converted_parameters[f"chi_{idx}_in_plane"] ** 2
                 ) ** 0.5
-                converted_parameters[f"cos_tilt_{idx}"] = (
-                    converted_parameters[f"chi_{idx}"]
-                    / converted_parameters[f"a_{idx}"]
+                converted_parameters[f"cos_tilt_{idx}"] = _cos_tilt(
+                    converted_parameters[f"chi_{idx}"],
+                    converted_parameters[f"a_{idx}"],
                 )
             elif "a_{}".format(idx) not in original_keys:
                 converted_parameters['a_{}'.format(idx)] = abs(
@@ -246,18 +252,9 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
                 converted_parameters['cos_tilt_{}'.format(idx)] = \
                     np.sign(converted_parameters[key])
             else:
-                with np.errstate(invalid="raise"):
-                    try:
-                        converted_parameters[f"cos_tilt_{idx}"] = (
-                            converted_parameters[key] / converted_parameters[f"a_{idx}"]
-                        )
-                    except (FloatingPointError, ZeroDivisionError):
-                        logger.debug(
-                            "Error in conversion to spherical spin tilt. "
-                            "This is often due to the spin parameters being zero. "
-                            f"Setting cos_tilt_{idx} = 1."
-                        )
-                        converted_parameters[f"cos_tilt_{idx}"] = 1.0
+                converted_parameters[f"cos_tilt_{idx}"] = _cos_tilt(
+                    converted_parameters[key], converted_parameters[f"a_{idx}"]
+                )
 
     for key in ["phi_jl", "phi_12"]:
         if key not in converted_parameters:
-- 
2.43.0


From 14596fc398a3e4e3539250c62750bc3001dd7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 076/105] fix: keep the tidal deformabilities which are given

---
 bilby/gw/conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 68e5f1c..1acb807 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -321,6 +321,9 @@ def convert_to_lal_binary_neutron_star_parameters(parameters):
         added_keys = added_keys + ['lambda_1', 'lambda_2']
         return converted_parameters, added_keys
 
+    if 'lambda_1' in original_keys and converted_parameters.get('lambda_2', None) is not None:
+        return converted_parameters, added_keys
+
     if 'delta_lambda_tilde' in converted_parameters.keys():
         converted_parameters['lambda_1'], converted_parameters['lambda_2'] =\
             lambda_tilde_delta_lambda_tilde_to_lambda_1_lambda_2(
-- 
2.43.0


From 0517bde78a5d802c60281b6521738a12a7cb9be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 077/105] fix: convert the symmetric tidal parameter with any
 masses and for single samples

---
 bilby/gw/conversion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 1acb807..d86cd3a 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -560,7 +560,10 @@ def convert_to_lal_binary_neutron_star_parameters(parameters):
                 lambda_symmetric_lambda_antisymmetric_to_lambda_1_lambda_2(
                     converted_parameters['lambda_symmetric'],
                     converted_parameters['lambda_antisymmetric'])
-        elif 'mass_ratio' in converted_parameters.keys():
+        else:
+            if 'mass_ratio' not in converted_parameters.keys():
+                converted_parameters['mass_ratio'] = component_masses_to_mass_ratio(
+                    converted_parameters['mass_1'], converted_parameters['mass_2'])
             if 'binary_love_uniform' in converted_parameters.keys():
                 converted_parameters['lambda_1'], converted_parameters['lambda_2'] =\
                     binary_love_lambda_symmetric_to_lambda_1_lambda_2_manual_marginalisation(
@@ -1627,7 +1630,7 @@ def binary_love_lambda_symmetric_to_lambda_1_lambda_2_automatic_marginalisation(
     """
     from ..core.utils.random import rng
 
-    binary_love_uniform = rng.uniform(0, 1, len(lambda_symmetric))
+    binary_love_uniform = rng.uniform(0, 1, np.shape(lambda_symmetric))
 
     lambda_1, lambda_2 = binary_love_lambda_symmetric_to_lambda_1_lambda_2_manual_marginalisation(
         binary_love_uniform, lambda_symmetric, mass_ratio)
-- 
2.43.0


From a462bd0935f136443b8599f171c0e7aba45859ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:11 +0000
Subject: [PATCH 078/105] fix: leave the dictionary assigned to the settings of
 a sampler unchanged

---
 bilby/core/sampler/base_sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 33ed0ab..911552e 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -302,6 +302,7 @@ class Sampler(object):
     @kwargs.setter
     def kwargs(self, kwargs):
         self._kwargs = self.default_kwargs.copy()
+        kwargs = dict(kwargs)
         self._translate_kwargs(kwargs)
         self._kwargs.update(kwargs)
         self._verify_kwargs_against_default_kwargs()
-- 
2.43.0


From bb60e4161c793920f19bb99c304e71960db8b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:11 +0000
Subject: [PATCH 079/105] fix: use the pool size given to cpnest as the number
 of threads

---
 bilby/core/sampler/cpnest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/sampler/cpnest.py b/bilby/core/sampler/cpnest.py
index e777ebc..0d50d8e 100644
--- a/bilby/core/sampler/cpnest.py
+++ b/bilby/core/sampler/cpnest.py
@@ -67,6 +67,8 @@ class Cpnest(NestedSampler):
             for equiv in self.npool_equiv_kwargs:
                 if equiv in kwargs:
                     kwargs["nthreads"] = kwargs.pop(equiv)
+            if "nthreads" not in kwargs:
+                kwargs["nthreads"] = self._npool
 
         if "seed" not in kwargs:
             logger.warning("No seed provided, cpnest will use 1234.")
-- 
2.43.0


From 590d9afd7c73b8fda55a7836361193aa3e33c615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:11 +0000
Subject: [PATCH 080/105] fix: use the equivalent names of the pool size of
 Bilby-MCMC

---
 bilby/bilby_mcmc/sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 70d62a6..25791d4 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -239,6 +239,11 @@ class Bilby_MCMC(MCMCSampler):
             for equiv in self.npool_equiv_kwargs:
                 if equiv in kwargs:
                     kwargs["npool"] = kwargs.pop(equiv)
+        if "npool" in kwargs:
+            # the pool size is not a default argument, a given npool takes precedence
+            npool = kwargs.pop("npool")
+            if self._npool in (1, None):
+                self._npool = npool
         if "check_point_delta_t" not in kwargs:
             for equiv in self.check_point_equiv_kwargs:
                 if equiv in kwargs:
-- 
2.43.0


From f28d566a20f323de1b37d3afab08b634eb35731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 081/105] fix: keep spaces, commas and brackets within the
 strings of prior descriptions

---
 bilby/core/prior/base.py | 52 ++++++++++++++++++++++++++++++----------
 bilby/core/prior/dict.py |  6 ++++-
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/bilby/core/prior/base.py b/bilby/core/prior/base.py
index 0dcac2c..55c3053 100644
--- a/bilby/core/prior/base.py
+++ b/bilby/core/prior/base.py
@@ -338,7 +338,6 @@ class Prior(object):
     def _from_repr(cls, string):
         subclass_args = infer_args_from_method(cls.__init__)
 
-        string = string.replace(' ', '')
         kwargs = cls._split_repr(string)
         for key in kwargs:
             val = kwargs[key]
@@ -360,18 +359,7 @@ class Prior(object):
     @classmethod
     def _split_repr(cls, string):
         subclass_args = infer_args_from_method(cls.__init__)
-        args = string.split(',')
-        remove = list()
-        for ii, key in enumerate(args):
-            if '(' in key:
-                jj = ii
-                while ')' not in args[jj]:
-                    jj += 1
-                    args[ii] = ','.join([args[ii], args[jj]]).strip()
-                    remove.append(jj)
-        remove.reverse()
-        for ii in remove:
-            del args[ii]
+        args = cls._split_arguments(string)
         kwargs = dict()
         for ii, arg in enumerate(args):
             if '=' not in arg:
@@ -386,6 +374,42 @@ class Prior(object):
             kwargs[key] = val
         return kwargs
 
+    @staticmethod
+    def _split_arguments(string):
+        """
+        Split a list of arguments at the commas between them, i.e., not at the ones
+        within quotes or brackets, and remove the spaces which are not within quotes.
+
+        Parameters
+        ==========
+        string: str
+            The string version of the arguments
+
+        Returns
+        =======
+        list: The string version of every argument
+        """
+        args = ['']
+        quote = None
+        depth = 0
+        for char in string:
+            if quote is not None:
+                if char == quote:
+                    quote = None
+            elif char == ' ':
+                continue
+            elif char in "'\"":
+                quote = char
+            elif char in '([{':
+                depth += 1
+            elif char in ')]}':
+                depth -= 1
+            elif char == ',' and depth == 0:
+                args.append('')
+                continue
+            args[-1] += char
+        return args
+
     @classmethod
     def _parse_argument_string(cls, val):
         """
@@ -433,6 +457,8 @@ class Prior(object):
             val = val[2:-1]
         elif val.startswith("'") and val.endswith("'"):
             val = val.strip("'")
+        elif val.startswith('"') and val.endswith('"'):
+            val = val.strip('"')
         elif '(' in val and not val.startswith(("[", "{")):
             other_cls = val.split('(')[0]
             vals = '('.join(val.split('(')[1:])[:-1]
diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 659ac13..6c0565a 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -293,7 +293,11 @@ class PriorDict(dict):
                         item[0].strip(): cls._parse_argument_string(item[1])
                         for item in cls._split_repr(
                             ", ".join(
-                                [arg for arg in args.split(",") if "dist=" not in arg]
+                                [
+                                    arg
+                                    for arg in cls._split_arguments(args)
+                                    if not arg.startswith("dist=")
+                                ]
                             )
                         ).items()
                     }
-- 
2.43.0


From 8dfea1afafae19c1ee7eb056135016aeeab8a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 082/105] fix: represent the arrays of priors such that they
 can be read

---
 bilby/core/prior/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bilby/core/prior/base.py b/bilby/core/prior/base.py
index 55c3053..b3e3974 100644
--- a/bilby/core/prior/base.py
+++ b/bilby/core/prior/base.py
@@ -223,6 +223,10 @@ class Prior(object):
         prior_name = self.__class__.__name__
         prior_module = self.__class__.__module__
         instantiation_dict = self.get_instantiation_dict()
+        for key, value in instantiation_dict.items():
+            if isinstance(value, np.ndarray):
+                # the representation of arrays is rounded and cannot be read
+                instantiation_dict[key] = value.tolist()
         args = ', '.join([f'{key}={repr(instantiation_dict[key])}' for key in instantiation_dict])
         if "bilby.core.prior" in prior_module:
             return f"{prior_name}({args})"
-- 
2.43.0


From f28266e05f891b2465f09eefc9807cb9beccedcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 083/105] fix: write prior files such that non-ASCII labels can
 be read

---
 bilby/core/prior/dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 6c0565a..8711be2 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -131,7 +131,10 @@ class PriorDict(dict):
         prior_file = os.path.join(outdir, "{}.prior".format(label))
         logger.debug("Writing priors to {}".format(prior_file))
         joint_dists = []
-        with open(prior_file, "w") as outfile:
+        # priors are read from files with escape sequences
+        with open(
+            prior_file, "w", encoding="ascii", errors="backslashreplace"
+        ) as outfile:
             for key in self.keys():
                 if JointPrior in self[key].__class__.__mro__:
                     distname = "_".join(self[key].dist.names) + "_{}".format(
-- 
2.43.0


From 5c800d33bdffb013b45ef84bcce32963c2238e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:45 +0000
Subject: [PATCH 084/105] fix: read the backslashes in the printed
 representation of priors

---
 bilby/core/prior/base.py | 6 +++---
 bilby/core/prior/dict.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/base.py b/bilby/core/prior/base.py
index b3e3974..7de751b 100644
--- a/bilby/core/prior/base.py
+++ b/bilby/core/prior/base.py
@@ -458,11 +458,11 @@ class Prior(object):
         if val == 'None':
             val = None
         elif re.sub(r'\'.*\'', '', val) in ['r', 'u']:
-            val = val[2:-1]
+            val = val[2:-1].replace('\\\\', '\\')
         elif val.startswith("'") and val.endswith("'"):
-            val = val.strip("'")
+            val = val.strip("'").replace('\\\\', '\\')
         elif val.startswith('"') and val.endswith('"'):
-            val = val.strip('"')
+            val = val.strip('"').replace('\\\\', '\\')
         elif '(' in val and not val.startswith(("[", "{")):
             other_cls = val.split('(')[0]
             vals = '('.join(val.split('(')[1:])[:-1]
diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 8711be2..3dc6748 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -196,7 +196,8 @@ class PriorDict(dict):
                 elements = line.split("=")
                 key = elements[0].replace(" ", "")
                 val = "=".join(elements[1:]).strip()
-                prior[key] = val
+                # the escape sequences have been replaced when reading the file
+                prior[key] = val.replace("\\", "\\\\")
         self.from_dictionary(prior)
 
     @classmethod
-- 
2.43.0


From 6b0f45d38c9b4b3a181c65fe405cab3c0359eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:58 +0000
Subject: [PATCH 085/105] fix: normalise the densities of sine and cosine
 priors with any bounds

---
 bilby/core/prior/analytical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 5e7b309..11f0f2b 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -412,7 +412,8 @@ class Cosine(Prior):
         =======
         float: Prior probability of val
         """
-        return np.cos(val) / 2 * self.is_in_prior_range(val)
+        norm = np.sin(self.maximum) - np.sin(self.minimum)
+        return np.cos(val) / norm * self.is_in_prior_range(val)
 
     def cdf(self, val):
         _cdf = np.atleast_1d((np.sin(val) - np.sin(self.minimum)) /
@@ -466,7 +467,8 @@ class Sine(Prior):
         =======
         Union[float, array_like]: Prior probability of val
         """
-        return np.sin(val) / 2 * self.is_in_prior_range(val)
+        norm = np.cos(self.minimum) - np.cos(self.maximum)
+        return np.sin(val) / norm * self.is_in_prior_range(val)
 
     def cdf(self, val):
         _cdf = np.atleast_1d((np.cos(val) - np.cos(self.minimum)) /
-- 
2.43.0


From 56bb73887bfbfaededee34d19610c5f3d173369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:58 +0000
Subject: [PATCH 086/105] fix: evaluate power laws at values which are not
 positive

---
 bilby/core/prior/analytical.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 11f0f2b..b0469b2 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -122,12 +122,15 @@ class PowerLaw(Prior):
         =======
         float: Prior probability of val
         """
+        in_range = self.is_in_prior_range(val)
+        # the power law need not be defined outside of the range
+        val = np.clip(1. * val, self.minimum, self.maximum)
         if self.alpha == -1:
-            return np.nan_to_num(1 / val / np.log(self.maximum / self.minimum)) * self.is_in_prior_range(val)
+            return np.nan_to_num(1 / val / np.log(self.maximum / self.minimum)) * in_range
         else:
             return np.nan_to_num(val ** self.alpha * (1 + self.alpha) /
                                  (self.maximum ** (1 + self.alpha) -
-                                  self.minimum ** (1 + self.alpha))) * self.is_in_prior_range(val)
+                                  self.minimum ** (1 + self.alpha))) * in_range
 
     def ln_prob(self, val):
         """Return the logarithmic prior probability of val
@@ -149,11 +152,13 @@ class PowerLaw(Prior):
 
         with np.errstate(divide='ignore', invalid='ignore'):
             ln_in_range = np.log(1. * self.is_in_prior_range(val))
+            val = np.clip(1. * val, self.minimum, self.maximum)
             ln_p = self.alpha * np.nan_to_num(np.log(val)) + np.log(normalising)
 
         return ln_p + ln_in_range
 
     def cdf(self, val):
+        val = np.clip(1. * val, self.minimum, self.maximum)
         if self.alpha == -1:
             _cdf = (np.log(val / self.minimum) /
                     np.log(self.maximum / self.minimum))
-- 
2.43.0


From 291c08b2d16972487341a117c05f3d33d67be048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:58 +0000
Subject: [PATCH 087/105] fix: give symmetric log-uniform priors no density
 outside of their support

---
 bilby/core/prior/analytical.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index b0469b2..cbac016 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -358,14 +358,17 @@ class SymmetricLogUniform(Prior):
         float:
 
         """
-        return np.nan_to_num(- np.log(2 * np.abs(val)) - np.log(np.log(self.maximum / self.minimum)))
+        val = np.abs(val)
+        with np.errstate(divide='ignore'):
+            ln_in_range = np.log(1. * self.is_in_prior_range(val))
+            return np.nan_to_num(- np.log(2 * val) - np.log(np.log(self.maximum / self.minimum))) + ln_in_range
 
     def cdf(self, val):
         val = np.atleast_1d(val)
         norm = 0.5 / np.log(self.maximum / self.minimum)
-        cdf = np.zeros((len(val)))
-        lower_indices = np.where(np.logical_and(-self.maximum <= val, val <= -self.minimum))[0]
-        upper_indices = np.where(np.logical_and(self.minimum <= val, val <= self.maximum))[0]
+        cdf = np.zeros(val.shape)
+        lower_indices = np.where(np.logical_and(-self.maximum <= val, val <= -self.minimum))
+        upper_indices = np.where(np.logical_and(self.minimum <= val, val <= self.maximum))
         cdf[lower_indices] = -norm * np.log(-val[lower_indices] / self.maximum)
         cdf[np.where(np.logical_and(-self.minimum < val, val < self.minimum))] = 0.5
         cdf[upper_indices] = 0.5 + norm * np.log(val[upper_indices] / self.minimum)
-- 
2.43.0


From f25f04fd7147009bea6c6fadb52b5156d59afec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:39 +0000
Subject: [PATCH 088/105] fix: evaluate and sample priors with arrays of any
 shape

---
 bilby/core/prior/analytical.py | 24 ++++++++++++------------
 bilby/core/prior/slabspike.py  | 10 +++++-----
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index cbac016..f5021ab 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -718,7 +718,7 @@ class LogNormal(Prior):
                 _prob = np.exp(-(np.log(val) - self.mu) ** 2 / self.sigma ** 2 / 2)\
                     / np.sqrt(2 * np.pi) / val / self.sigma
         else:
-            _prob = np.zeros(val.size)
+            _prob = np.zeros(val.shape)
             idx = (val > self.minimum)
             _prob[idx] = np.exp(-(np.log(val[idx]) - self.mu) ** 2 / self.sigma ** 2 / 2)\
                 / np.sqrt(2 * np.pi) / val[idx] / self.sigma
@@ -742,7 +742,7 @@ class LogNormal(Prior):
                 _ln_prob = -(np.log(val) - self.mu) ** 2 / self.sigma ** 2 / 2\
                     - np.log(np.sqrt(2 * np.pi) * val * self.sigma)
         else:
-            _ln_prob = -np.inf * np.ones(val.size)
+            _ln_prob = -np.inf * np.ones(val.shape)
             idx = (val > self.minimum)
             _ln_prob[idx] = -(np.log(val[idx]) - self.mu) ** 2\
                 / self.sigma ** 2 / 2 - np.log(np.sqrt(2 * np.pi) * val[idx] * self.sigma)
@@ -755,7 +755,7 @@ class LogNormal(Prior):
             else:
                 _cdf = 0.5 + erf((np.log(val) - self.mu) / self.sigma / np.sqrt(2)) / 2
         else:
-            _cdf = np.zeros(val.size)
+            _cdf = np.zeros(val.shape)
             _cdf[val > self.minimum] = 0.5 + erf((
                 np.log(val[val > self.minimum]) - self.mu) / self.sigma / np.sqrt(2)) / 2
         return _cdf
@@ -811,7 +811,7 @@ class Exponential(Prior):
             else:
                 _prob = np.exp(-val / self.mu) / self.mu
         else:
-            _prob = np.zeros(val.size)
+            _prob = np.zeros(val.shape)
             _prob[val >= self.minimum] = np.exp(-val[val >= self.minimum] / self.mu) / self.mu
         return _prob
 
@@ -832,7 +832,7 @@ class Exponential(Prior):
             else:
                 _ln_prob = -val / self.mu - np.log(self.mu)
         else:
-            _ln_prob = -np.inf * np.ones(val.size)
+            _ln_prob = -np.inf * np.ones(val.shape)
             _ln_prob[val >= self.minimum] = -val[val >= self.minimum] / self.mu - np.log(self.mu)
         return _ln_prob
 
@@ -843,7 +843,7 @@ class Exponential(Prior):
             else:
                 _cdf = 1. - np.exp(-val / self.mu)
         else:
-            _cdf = np.zeros(val.size)
+            _cdf = np.zeros(val.shape)
             _cdf[val >= self.minimum] = 1. - np.exp(-val[val >= self.minimum] / self.mu)
         return _cdf
 
@@ -1012,7 +1012,7 @@ class Beta(Prior):
                 return _ln_prob
             return -np.inf
         else:
-            _ln_prob_sub = np.full_like(val, -np.inf)
+            _ln_prob_sub = np.full_like(val, -np.inf, dtype=float)
             idx = np.isfinite(_ln_prob) & (val >= self.minimum) & (val <= self.maximum)
             _ln_prob_sub[idx] = _ln_prob[idx]
             return _ln_prob_sub
@@ -1077,7 +1077,7 @@ class Logistic(Prior):
             else:
                 rescaled = self.mu + self.scale * np.log(val / (1. - val))
         else:
-            rescaled = np.inf * np.ones(val.size)
+            rescaled = np.inf * np.ones(val.shape)
             rescaled[val == 0] = -np.inf
             rescaled[(val > 0) & (val < 1)] = self.mu + self.scale\
                 * np.log(val[(val > 0) & (val < 1)] / (1. - val[(val > 0) & (val < 1)]))
@@ -1262,7 +1262,7 @@ class Gamma(Prior):
             else:
                 _ln_prob = xlogy(self.k - 1, val) - val / self.theta - xlogy(self.k, self.theta) - gammaln(self.k)
         else:
-            _ln_prob = -np.inf * np.ones(val.size)
+            _ln_prob = -np.inf * np.ones(val.shape)
             idx = (val >= self.minimum)
             _ln_prob[idx] = xlogy(self.k - 1, val[idx]) - val[idx] / self.theta\
                 - xlogy(self.k, self.theta) - gammaln(self.k)
@@ -1275,7 +1275,7 @@ class Gamma(Prior):
             else:
                 _cdf = gammainc(self.k, val / self.theta)
         else:
-            _cdf = np.zeros(val.size)
+            _cdf = np.zeros(val.shape)
             _cdf[val >= self.minimum] = gammainc(self.k, val[val >= self.minimum] / self.theta)
         return _cdf
 
@@ -1393,7 +1393,7 @@ class FermiDirac(Prior):
                 return -self.sigma * np.log(inv)
         else:
             idx = inv >= 0.
-            tmpinv = np.inf * np.ones(len(np.atleast_1d(val)))
+            tmpinv = np.inf * np.ones(np.shape(np.atleast_1d(val)))
             tmpinv[idx] = -self.sigma * np.log(inv[idx])
             return tmpinv
 
@@ -1430,7 +1430,7 @@ class FermiDirac(Prior):
                 return norm - np.logaddexp((val / self.sigma) - self.r, 0.)
         else:
             val = np.atleast_1d(val)
-            lnp = -np.inf * np.ones(len(val))
+            lnp = -np.inf * np.ones(val.shape)
             idx = val >= self.minimum
             lnp[idx] = norm - np.logaddexp((val[idx] / self.sigma) - self.r, 0.)
             return lnp
diff --git a/bilby/core/prior/slabspike.py b/bilby/core/prior/slabspike.py
index 92664b1..086f1dd 100644
--- a/bilby/core/prior/slabspike.py
+++ b/bilby/core/prior/slabspike.py
@@ -88,13 +88,13 @@ class SlabSpikePrior(Prior):
         original_is_number = isinstance(val, Number)
         val = np.atleast_1d(val)
 
-        lower_indices = np.where(val < self.inverse_cdf_below_spike)[0]
+        lower_indices = np.where(val < self.inverse_cdf_below_spike)
         intermediate_indices = np.where(np.logical_and(
             self.inverse_cdf_below_spike <= val,
-            val <= self.inverse_cdf_below_spike + self.spike_height))[0]
-        higher_indices = np.where(val > self.inverse_cdf_below_spike + self.spike_height)[0]
+            val <= self.inverse_cdf_below_spike + self.spike_height))
+        higher_indices = np.where(val > self.inverse_cdf_below_spike + self.spike_height)
 
-        res = np.zeros(len(val))
+        res = np.zeros(val.shape)
         res[lower_indices] = self._contracted_rescale(val[lower_indices])
         res[intermediate_indices] = self.spike_location
         res[higher_indices] = self._contracted_rescale(val[higher_indices] - self.spike_height)
@@ -186,6 +186,6 @@ class SlabSpikePrior(Prior):
         """
         res = self.slab.cdf(val) * self.slab_fraction
         res = np.atleast_1d(res)
-        indices_above_spike = np.where(val > self.spike_location)[0]
+        indices_above_spike = np.where(np.atleast_1d(val > self.spike_location))
         res[indices_above_spike] += self.spike_height
         return res
-- 
2.43.0


From 409e26129c95a5f6758da2244c04ef3e5e4170c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:03 +0000
Subject: [PATCH 089/105] fix: derive the values of triangular, categorical,
 Fermi-Dirac priors from their parameters

---
 bilby/core/prior/analytical.py | 46 +++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index f5021ab..872a975 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -1355,15 +1355,21 @@ class FermiDirac(Prior):
 
         if r is None and mu is not None:
             self.mu = mu
-            self.r = self.mu / self.sigma
         else:
             self.r = r
-            self.mu = self.sigma * self.r
 
         if self.r <= 0. or self.sigma <= 0.:
             raise ValueError("For the Fermi-Dirac prior the values of sigma and r "
                              "must be positive.")
 
+    @property
+    def mu(self):
+        return self.sigma * self.r
+
+    @mu.setter
+    def mu(self, mu):
+        self.r = mu / self.sigma
+
     def rescale(self, val):
         """
         'Rescale' a sample from the unit line element to the appropriate Fermi-Dirac prior.
@@ -1461,6 +1467,15 @@ class Categorical(Prior):
             name=name, latex_label=latex_label, minimum=minimum,
             maximum=maximum, unit=unit, boundary=boundary)
         self.ncategories = ncategories
+
+    @property
+    def ncategories(self):
+        return self._ncategories
+
+    @ncategories.setter
+    def ncategories(self, ncategories):
+        self._ncategories = ncategories
+        self.maximum = ncategories - 1 + 1e-15
         self.categories = np.arange(self.minimum, self.maximum)
         self.p = 1 / self.ncategories
         self.lnp = -np.log(self.ncategories)
@@ -1480,7 +1495,10 @@ class Categorical(Prior):
         =======
         Union[float, array_like]: Rescaled probability
         """
-        return np.floor(val * (1 + self.maximum))
+        return np.minimum(np.floor(val * (1 + self.maximum)), self.ncategories - 1)
+
+    def cdf(self, val):
+        return np.clip((np.floor(val) + 1) / self.ncategories, 0, 1)
 
     def prob(self, val):
         """Return the prior probability of val.
@@ -1549,12 +1567,22 @@ class Triangular(Prior):
             maximum=maximum,
         )
         self.mode = mode
-        self.fractional_mode = (self.mode - self.minimum) / (
-            self.maximum - self.minimum
-        )
-        self.scale = self.maximum - self.minimum
-        self.rescaled_minimum = self.minimum - (self.minimum == self.mode) * self.scale
-        self.rescaled_maximum = self.maximum + (self.maximum == self.mode) * self.scale
+
+    @property
+    def fractional_mode(self):
+        return (self.mode - self.minimum) / (self.maximum - self.minimum)
+
+    @property
+    def scale(self):
+        return self.maximum - self.minimum
+
+    @property
+    def rescaled_minimum(self):
+        return self.minimum - (self.minimum == self.mode) * self.scale
+
+    @property
+    def rescaled_maximum(self):
+        return self.maximum + (self.maximum == self.mode) * self.scale
 
     def rescale(self, val):
         """
-- 
2.43.0


From 6fba88d6378f938a9e9652ebd92843a862a80792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:03 +0000
Subject: [PATCH 090/105] fix: derive the values of slab-spike priors from
 their slab and spike

---
 bilby/core/prior/slabspike.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/slabspike.py b/bilby/core/prior/slabspike.py
index 086f1dd..4f947eb 100644
--- a/bilby/core/prior/slabspike.py
+++ b/bilby/core/prior/slabspike.py
@@ -36,10 +36,26 @@ class SlabSpikePrior(Prior):
                          check_range_nonzero=self.slab.check_range_nonzero, boundary=self.slab.boundary)
         self.spike_location = spike_location
         self.spike_height = spike_height
-        try:
-            self.inverse_cdf_below_spike = self._find_inverse_cdf_fraction_before_spike()
-        except Exception as e:
-            logger.warning("Disregard the following warning when running tests:\n {}".format(e))
+
+    @property
+    def minimum(self):
+        return self.slab.minimum
+
+    @minimum.setter
+    def minimum(self, minimum):
+        self.slab.minimum = minimum
+
+    @property
+    def maximum(self):
+        return self.slab.maximum
+
+    @maximum.setter
+    def maximum(self, maximum):
+        self.slab.maximum = maximum
+
+    @property
+    def inverse_cdf_below_spike(self):
+        return self._find_inverse_cdf_fraction_before_spike()
 
     @property
     def spike_location(self):
-- 
2.43.0


From 5ee4d68074fd5707508d7ea2b721aa1b1955ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:04 +0000
Subject: [PATCH 091/105] fix: evaluate uniform in component mass ratio priors
 outside of and with changed bounds

---
 bilby/gw/prior.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index 67e6797..ad7eeee 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -433,17 +433,41 @@ class UniformInComponentsMassRatio(Prior):
         super(UniformInComponentsMassRatio, self).__init__(
             minimum=minimum, maximum=maximum, name=name,
             latex_label=latex_label, unit=unit, boundary=boundary)
-        self.norm = self._integral(maximum) - self._integral(minimum)
-        qs = np.linspace(minimum, maximum, 1000)
+        self._update_instance()
+
+    @property
+    def minimum(self):
+        return self._minimum
+
+    @minimum.setter
+    def minimum(self, minimum):
+        self._minimum = minimum
+        if "icdf" in self.__dict__:
+            self._update_instance()
+
+    @property
+    def maximum(self):
+        return self._maximum
+
+    @maximum.setter
+    def maximum(self, maximum):
+        self._maximum = maximum
+        if "icdf" in self.__dict__:
+            self._update_instance()
+
+    def _update_instance(self):
+        self.norm = self._integral(self.maximum) - self._integral(self.minimum)
+        qs = np.linspace(self.minimum, self.maximum, 1000)
         self.icdf = WrappedInterp1d(
             self.cdf(qs), qs, kind='cubic',
-            bounds_error=False, fill_value=(minimum, maximum))
+            bounds_error=False, fill_value=(self.minimum, self.maximum))
 
     @staticmethod
     def _integral(q):
         return -5. * q**(-1. / 5.) * hyp2f1(-2. / 5., -1. / 5., 4. / 5., -q)
 
     def cdf(self, val):
+        val = np.clip(val, self.minimum, self.maximum)
         return (self._integral(val) - self._integral(self.minimum)) / self.norm
 
     def rescale(self, val):
@@ -457,6 +481,7 @@ class UniformInComponentsMassRatio(Prior):
 
     def prob(self, val):
         in_prior = (val >= self.minimum) & (val <= self.maximum)
+        val = np.clip(val, self.minimum, self.maximum)
         with np.errstate(invalid="ignore"):
             prob = (1. + val)**(2. / 5.) / (val**(6. / 5.)) / self.norm * in_prior
         return prob
-- 
2.43.0


From eedae382ec3eb4e7196278e847963e42811916a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:04 +0000
Subject: [PATCH 092/105] fix: read priors from files without stating bounds

---
 bilby/core/prior/interpolated.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/prior/interpolated.py b/bilby/core/prior/interpolated.py
index 2cee669..af30819 100644
--- a/bilby/core/prior/interpolated.py
+++ b/bilby/core/prior/interpolated.py
@@ -201,6 +201,8 @@ class FromFile(Interped):
         try:
             self.file_name = file_name
             xx, yy = np.genfromtxt(self.file_name).T
+            minimum = np.nan if minimum is None else minimum
+            maximum = np.nan if maximum is None else maximum
             super(FromFile, self).__init__(xx=xx, yy=yy, minimum=minimum,
                                            maximum=maximum, name=name, latex_label=latex_label,
                                            unit=unit, boundary=boundary)
-- 
2.43.0


From 0f97c28305cbf11ade72d74a50db699c83c8b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:04 +0000
Subject: [PATCH 093/105] fix: move the bounds of delta functions along with
 their peak

---
 bilby/core/prior/analytical.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 872a975..82dcbee 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -30,6 +30,16 @@ class DeltaFunction(Prior):
         self._is_fixed = True
         self.least_recently_sampled = peak
 
+    @property
+    def peak(self):
+        return self._peak
+
+    @peak.setter
+    def peak(self, peak):
+        self._peak = peak
+        self.minimum = peak
+        self.maximum = peak
+
     def rescale(self, val):
         """Rescale everything to the peak with the correct shape.
 
-- 
2.43.0


From 836a7024eaeaf29a0c1b06eee722fefc72a37ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:11 +0000
Subject: [PATCH 094/105] fix: rescale sine and cosine priors at their bounds

---
 bilby/core/prior/analytical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 82dcbee..3b67d72 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -417,7 +417,8 @@ class Cosine(Prior):
         This maps to the inverse CDF. This has been analytically solved for this case.
         """
         norm = 1 / (np.sin(self.maximum) - np.sin(self.minimum))
-        return np.arcsin(val / norm + np.sin(self.minimum))
+        # rounding may exceed one at the bounds
+        return np.arcsin(np.clip(val / norm + np.sin(self.minimum), -1, 1))
 
     def prob(self, val):
         """Return the prior probability of val. Defined over [-pi/2, pi/2].
@@ -472,7 +473,8 @@ class Sine(Prior):
         This maps to the inverse CDF. This has been analytically solved for this case.
         """
         norm = 1 / (np.cos(self.minimum) - np.cos(self.maximum))
-        return np.arccos(np.cos(self.minimum) - val / norm)
+        # rounding may exceed one at the bounds
+        return np.arccos(np.clip(np.cos(self.minimum) - val / norm, -1, 1))
 
     def prob(self, val):
         """Return the prior probability of val. Defined over [0, pi].
-- 
2.43.0


From 333a778ac5c85da0a7a5fafafd7ec8eb6d8af497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:11 +0000
Subject: [PATCH 095/105] fix: rescale symmetric log-uniform priors with
 integers

---
 bilby/core/prior/analytical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 3b67d72..4418ad1 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -334,7 +334,7 @@ class SymmetricLogUniform(Prior):
                 return self.minimum * np.exp(np.log(self.maximum / self.minimum) * (2 * val - 1))
         else:
             vals_less_than_5 = val < 0.5
-            rescaled = np.empty_like(val)
+            rescaled = np.empty_like(val, dtype=float)
             rescaled[vals_less_than_5] = -self.maximum * np.exp(-2 * val[vals_less_than_5] *
                                                                 np.log(self.maximum / self.minimum))
             rescaled[~vals_less_than_5] = self.minimum * np.exp(np.log(self.maximum / self.minimum) *
-- 
2.43.0


From 3f83fa339c87d9a684c4cdbec41fa3f0cf2ad2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:58 +0000
Subject: [PATCH 096/105] fix: reset the signals when a run fails

---
 bilby/core/sampler/base_sampler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 911552e..36b39c9 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -94,12 +94,13 @@ def signal_wrapper(method):
                 "This is likely the case if you are running on a Windows machine "
                 "and can be safely ignored."
             )
-        output = method(self, *args, **kwargs)
-        if _set:
-            signal.signal(signal.SIGTERM, old_term)
-            signal.signal(signal.SIGINT, old_int)
-            signal.signal(signal.SIGALRM, old_alarm)
-        return output
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            if _set:
+                signal.signal(signal.SIGTERM, old_term)
+                signal.signal(signal.SIGINT, old_int)
+                signal.signal(signal.SIGALRM, old_alarm)
 
     return wrapped
 
-- 
2.43.0


From 0965b6ec487e836d027c6bcd19bbaf9f51ab8e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:58 +0000
Subject: [PATCH 097/105] fix: exit on signals before the pool is created and
 after it is closed

---
 bilby/core/sampler/base_sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 36b39c9..d506e6b 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -82,6 +82,7 @@ def signal_wrapper(method):
     """
 
     def wrapped(self, *args, **kwargs):
+        self._main_process = os.getpid()
         try:
             old_term = signal.signal(signal.SIGTERM, self.write_current_state_and_exit)
             old_int = signal.signal(signal.SIGINT, self.write_current_state_and_exit)
@@ -739,13 +740,13 @@ class Sampler(object):
     def write_current_state_and_exit(self, signum=None, frame=None):
         """
         Make sure that if a pool of jobs is running only the parent tries to
-        checkpoint and exit. Only the parent has a 'pool' attribute.
+        checkpoint and exit, i.e., the process which started the run.
 
         For samplers that must hard exit (typically due to non-Python process)
         use :code:`os._exit` that cannot be excepted. Other samplers exiting
         can be caught as a :code:`SystemExit`.
         """
-        if self.npool in (1, None) or getattr(self, "pool", None) is not None:
+        if os.getpid() == getattr(self, "_main_process", os.getpid()):
             self._log_interruption(signum=signum)
             self.write_current_state()
             self._close_pool()
-- 
2.43.0


From 2aac7e48438c3ff1813f3b984dad2fefddc30cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:58 +0000
Subject: [PATCH 098/105] fix: exit on signals before the first iteration of
 ensemble samplers

---
 bilby/core/sampler/emcee.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bilby/core/sampler/emcee.py b/bilby/core/sampler/emcee.py
index 9bd0e07..6e0523c 100644
--- a/bilby/core/sampler/emcee.py
+++ b/bilby/core/sampler/emcee.py
@@ -284,6 +284,9 @@ class Emcee(MCMCSampler):
         Overwrites the stored sampler chain with one that is truncated
         to only the completed steps
         """
+        if getattr(self, "_sampler", None) is None or self._previous_iterations == 0:
+            logger.debug("Attempted checkpoint before the first iteration")
+            return
         logger.info(
             f"Checkpointing sampler to file {self.checkpoint_info.sampler_file}"
         )
-- 
2.43.0


From 828aee0be470e1e75780b11fb5c12dcb7a0485ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:58 +0000
Subject: [PATCH 099/105] fix: count the previous iterations when resuming zeus

---
 bilby/core/sampler/zeus.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bilby/core/sampler/zeus.py b/bilby/core/sampler/zeus.py
index ec0818e..dc178b7 100644
--- a/bilby/core/sampler/zeus.py
+++ b/bilby/core/sampler/zeus.py
@@ -115,7 +115,13 @@ class Zeus(Emcee):
 
         return init_kwargs
 
+    @property
+    def _previous_iterations(self):
+        return self.sampler.samples.length
+
     def write_current_state(self):
+        if getattr(self, "_sampler", None) is None:
+            return
         self._sampler.distribute = map
         super(Zeus, self).write_current_state()
         self._sampler.distribute = getattr(self._sampler.pool, "map", map)
-- 
2.43.0


From ed7def43df8ae6053becc21d671c059c5be57202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 100/105] fix: exit on signals before the first iteration of
 ptemcee and kombine

---
 bilby/core/sampler/kombine.py | 2 +-
 bilby/core/sampler/ptemcee.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index 4677519..d80bde5 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -227,6 +227,6 @@ class Kombine(Emcee):
     def _close_pool(self):
         from kombine import SerialPool
 
-        if isinstance(self.pool, SerialPool):
+        if isinstance(getattr(self, "pool", None), SerialPool):
             self.pool = None
         super(Kombine, self)._close_pool()
diff --git a/bilby/core/sampler/ptemcee.py b/bilby/core/sampler/ptemcee.py
index 1d74a6f..473fd15 100644
--- a/bilby/core/sampler/ptemcee.py
+++ b/bilby/core/sampler/ptemcee.py
@@ -502,7 +502,7 @@ class Ptemcee(MCMCSampler):
             raise SamplerError(f"pos0={self.pos0} not implemented")
 
     def _close_pool(self):
-        if getattr(self.sampler, "pool", None) is not None:
+        if getattr(getattr(self, "sampler", None), "pool", None) is not None:
             self.sampler.pool = None
         if "pool" in self.result.sampler_kwargs:
             del self.result.sampler_kwargs["pool"]
@@ -653,6 +653,9 @@ class Ptemcee(MCMCSampler):
         return self.result
 
     def write_current_state(self, plot=True):
+        if len(self.Q_list) == 0:
+            logger.debug("Attempted checkpoint before the first iteration")
+            return
         check_directory_exists_and_if_not_mkdir(self.outdir)
         checkpoint(
             self.iteration,
-- 
2.43.0


From b9a1062f0dd448e01dfcbeeb7972828f1b0487f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 101/105] fix: keep the states of ptemcee consistent which are
 written within an iteration

---
 bilby/core/sampler/ptemcee.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bilby/core/sampler/ptemcee.py b/bilby/core/sampler/ptemcee.py
index 473fd15..82a07d3 100644
--- a/bilby/core/sampler/ptemcee.py
+++ b/bilby/core/sampler/ptemcee.py
@@ -1238,6 +1238,10 @@ def checkpoint(
         df = pd.DataFrame(samples, columns=search_parameter_keys)
         df.to_csv(filename, index=False, header=True, sep=" ")
 
+    # The run may be interrupted before the last iteration is stored completely
+    iteration = min(iteration, len(Q_list))
+    max_steps = min(chain_array.shape[1], log_likelihood_array.shape[2], log_posterior_array.shape[2])
+
     # Pickle the resume artefacts
     pool = sampler.pool
     sampler.pool = None
@@ -1247,14 +1251,14 @@ def checkpoint(
     data = dict(
         iteration=iteration,
         sampler=sampler_copy,
-        beta_list=beta_list,
-        tau_list=tau_list,
-        tau_list_n=tau_list_n,
-        Q_list=Q_list,
-        time_per_check=time_per_check,
-        log_likelihood_array=log_likelihood_array,
-        log_posterior_array=log_posterior_array,
-        chain_array=chain_array,
+        beta_list=beta_list[:iteration],
+        tau_list=tau_list[:iteration],
+        tau_list_n=tau_list_n[:iteration],
+        Q_list=Q_list[:iteration],
+        time_per_check=time_per_check[:iteration],
+        log_likelihood_array=log_likelihood_array[:, :, :max_steps],
+        log_posterior_array=log_posterior_array[:, :, :max_steps],
+        chain_array=chain_array[:, :max_steps, :],
         pos0=pos0,
     )
 
-- 
2.43.0


From bfe0ed596f81890e00cd1c990077520a58091b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:45 +0000
Subject: [PATCH 102/105] fix: close the pool when a signal arrives while it is
 created

---
 bilby/core/sampler/base_sampler.py | 31 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index d506e6b..75ea424 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -747,6 +747,10 @@ class Sampler(object):
         can be caught as a :code:`SystemExit`.
         """
         if os.getpid() == getattr(self, "_main_process", os.getpid()):
+            if getattr(self, "_creating_pool", False):
+                # act when the pool is complete such that it can be closed
+                self._pending_signal = signum
+                return
             self._log_interruption(signum=signum)
             self.write_current_state()
             self._close_pool()
@@ -772,16 +776,23 @@ class Sampler(object):
             logger.info(f"Setting up multiproccesing pool with {self.npool} processes")
             import multiprocessing
 
-            self.pool = multiprocessing.Pool(
-                processes=self.npool,
-                initializer=_initialize_global_variables,
-                initargs=(
-                    self.likelihood,
-                    self.priors,
-                    self._search_parameter_keys,
-                    self.use_ratio,
-                ),
-            )
+            self._pending_signal = None
+            self._creating_pool = True
+            try:
+                self.pool = multiprocessing.Pool(
+                    processes=self.npool,
+                    initializer=_initialize_global_variables,
+                    initargs=(
+                        self.likelihood,
+                        self.priors,
+                        self._search_parameter_keys,
+                        self.use_ratio,
+                    ),
+                )
+            finally:
+                self._creating_pool = False
+            if self._pending_signal is not None:
+                self.write_current_state_and_exit(self._pending_signal)
         else:
             self.pool = None
         _initialize_global_variables(
-- 
2.43.0


From 5c3a7dcc032fecdbae21decbdf5c660060316254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:45 +0000
Subject: [PATCH 103/105] fix: complete writing the state when further signals
 arrive

---
 bilby/core/sampler/base_sampler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 75ea424..5902c39 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -751,8 +751,15 @@ class Sampler(object):
                 # act when the pool is complete such that it can be closed
                 self._pending_signal = signum
                 return
+            if getattr(self, "_writing_state", False):
+                # a further signal, the state which is being written is completed
+                return
             self._log_interruption(signum=signum)
-            self.write_current_state()
+            self._writing_state = True
+            try:
+                self.write_current_state()
+            finally:
+                self._writing_state = False
             self._close_pool()
             if self.hard_exit:
                 os._exit(self.exit_code)
-- 
2.43.0


From d0385b5de3e27dea9f145665e2e7ed3cea320dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:06 +0000
Subject: [PATCH 104/105] fix: read the likelihoods of resumed zeus runs

---
 bilby/core/sampler/zeus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/zeus.py b/bilby/core/sampler/zeus.py
index dc178b7..8195898 100644
--- a/bilby/core/sampler/zeus.py
+++ b/bilby/core/sampler/zeus.py
@@ -187,7 +187,9 @@ class Zeus(Emcee):
                 f"`nburn < nsteps` ({self.result.nburn} < {self.nsteps})."
                 " Try increasing the number of steps."
             )
-        blobs = np.array(self.sampler.get_blobs(discard=self.nburn)).reshape((-1, 2))
+        # the space which was allocated before an interruption is not used again
+        blobs = np.array(self.sampler.get_blobs()[self.nburn:self._previous_iterations])
+        blobs = blobs.reshape((-1, 2))
         log_likelihoods, log_priors = blobs.T
         self.result.log_likelihood_evaluations = log_likelihoods
         self.result.log_prior_evaluations = log_priors
-- 
2.43.0


From b987c1ede43dea1c306fe8f31250b131c458c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:04 +0000
Subject: [PATCH 105/105] fix: close the pool when a run fails

---
 bilby/core/sampler/base_sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 5902c39..149eb2a 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -97,6 +97,11 @@ def signal_wrapper(method):
             )
         try:
             return method(self, *args, **kwargs)
+        except Exception:
+            # the workers ignore the signal which ends an abandoned pool
+            if hasattr(self, "_close_pool"):
+                self._close_pool()
+            raise
         finally:
             if _set:
                 signal.signal(signal.SIGTERM, old_term)
-- 
2.43.0

