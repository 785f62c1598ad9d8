From eb801725967b878386ea9508f947c7677971ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 01/20] fix: twohalfnorm must not draw side and magnitude from
 the same PRNG key

---
 appletree/randgen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 6d9a3ea..1e0d52d 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -640,6 +640,7 @@ def twohalfnorm(key, mu, sigma_pos, sigma_neg, shape=()):
     use_pos_half = random.uniform(seed, shape, minval=0.0, maxval=1.0) < pos_half_prob
     use_neg_half = ~use_pos_half
 
+    key, seed = random.split(key)
     n_sigma = jnp.abs(random.normal(seed, shape=shape))
     offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
     rvs = offset + mu
-- 
2.43.0


From a63dcfc8a8b73abc1c127f0d533c429b18affbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 02/20] fix: Plugin.lineage must describe the instance's own
 configs, not the shared class-level ones

---
 appletree/plugin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/plugin.py b/appletree/plugin.py
index 212ad6b..4c1074c 100644
--- a/appletree/plugin.py
+++ b/appletree/plugin.py
@@ -100,7 +100,8 @@ class Plugin:
             "takes_config": dict(
                 zip(
                     self.takes_config.keys(),
-                    [v.lineage for v in self.takes_config.values()],
+                    # self's own (likelihood-specific) copy of the configs
+                    [getattr(self, v.name).lineage for v in self.takes_config.values()],
                 )
             ),
         }
-- 
2.43.0


From 747f83669fd4dad81f0d3aa76e7fedb19bc7ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 03/20] fix: log_point maps must not take the logarithm of the
 map values

---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 4845980..73918e1 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -265,7 +265,7 @@ class Map(Config):
         val = self.interpolator(
             self.preprocess(pos),
             self.preprocess(self.coordinate_system),
-            self.preprocess(self.map),
+            self.map,
         )
         return val
 
-- 
2.43.0


From f0b93e3e3dba18f199517cf743bba286ead6cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 04/20] fix: parse the instructions stored in a backend as the
 JSON they are, do not eval them

---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 2e49d3e..def8b48 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -60,7 +60,7 @@ class Context:
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
         with h5py.File(get_file_path(backend_h5_file_name)) as file:
-            instruct = eval(file["mcmc"].attrs["instruct"])
+            instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
         tree = cls(instruct)
-- 
2.43.0


From 992d9f9e6633f71ebaeb00c6c335a9615890bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 05/20] fix: get_post_parameters must not answer from the chain
 of a previous fitting

---
 appletree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index def8b48..7840149 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -222,6 +222,9 @@ class Context:
         repeat_times=1,
     ):
         """Prepare for fitting, initialize backend and sampler."""
+        # Forget the chain cached by get_post_parameters from a previous fitting
+        for cached in ("_logp", "_chain"):
+            self.__dict__.pop(cached, None)
         self._set_backend(nwalkers, read_only=read_only, reset=reset)
         self.sampler = emcee.EnsembleSampler(
             nwalkers,
-- 
2.43.0


From 72fd2c1ff10536ce34a46f9203e330ed46be5d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 06/20] fix: get_template must apply the parameter aliases of
 the likelihood

---
 appletree/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/appletree/context.py b/appletree/context.py
index 7840149..253c54b 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -411,10 +411,11 @@ class Context:
         parameters = self.get_post_parameters()
         key = randgen.get_key(seed=seed)
 
-        key, result = self[likelihood_name][component_name].simulate(
+        likelihood = self[likelihood_name]
+        key, result = likelihood[component_name].simulate(
             key,
             batch_size,
-            parameters,
+            likelihood.replace_alias(parameters),
         )
         return result
 
-- 
2.43.0


From 0682699fc6e709b9dc0b6682a0feaf89f58a4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 07/20] fix: add_extensions must detect collisions on the
 attribute name it assigns

---
 appletree/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 6b08084..df7cd5d 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -571,7 +571,8 @@ def add_extensions(module1, module2, base, force=False):
 
     """
     # Assign the module2 as attribute of module1
-    is_exists = module2.__name__ in dir(module1)
+    name = module2.__name__.split(".")[-1]
+    is_exists = name in dir(module1)
     if is_exists and not force:
         raise ValueError(
             f"{module2.__name__} already existed in {module1.__name__}, "
@@ -580,7 +581,7 @@ def add_extensions(module1, module2, base, force=False):
     else:
         if is_exists:
             print(f"You have forcibly registered {module2.__name__} to {module1.__name__}")
-        setattr(module1, module2.__name__.split(".")[-1], module2)
+        setattr(module1, name, module2)
 
     # Iterate the module2 and assign the single Plugin(s) as attribute(s)
     for x in dir(module2):
-- 
2.43.0


From cb214922fb86bfdaae0c3390df35a5dac684ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 08/20] fix: multiple_simulations_compile must work without a
 g4 config

---
 appletree/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index de7c5d6..94341fb 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -113,7 +113,7 @@ class Component:
         limit of GPU."""
         results_pile = []
         for _ in range(times):
-            if _cached_configs["g4"] and self._use_mcinput:
+            if _cached_configs.get("g4") and self._use_mcinput:
                 if isinstance(_cached_configs["g4"], dict):
                     g4_file_name = _cached_configs["g4"][self.llh_name][0]
                     _cached_configs["g4"][self.llh_name] = [
-- 
2.43.0


From 24d62e6b0b9f81a9536d07a099a9029f2803723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 09/20] fix: set_global_config must not silently drop
 per-likelihood values of unsupported type

---
 appletree/share.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/share.py b/appletree/share.py
index e2dd33c..4e0f079 100644
--- a/appletree/share.py
+++ b/appletree/share.py
@@ -66,6 +66,8 @@ def set_global_config(configs):
                     file_path_dict[kk] = vv
                 elif isinstance(vv, str):
                     file_path_dict[kk] = get_file_path(vv)
+                else:
+                    raise NotImplementedError
             _cached_configs.update({k: file_path_dict})
         else:
             raise NotImplementedError
-- 
2.43.0


From aefd487b210041c875b17f5d28d6f8138e982982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 10/20] fix: ConstantSet.lineage must be JSON serializable

---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 73918e1..54ac799 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -596,5 +596,5 @@ class ConstantSet(Config):
     def lineage(self):
         return {
             "llh_name": self.llh_name,
-            "value": self.value,
+            "value": {k: v.tolist() for k, v in self.value.items()},
         }
-- 
2.43.0


From b68615dbc84c35310124185ecfdc85c572f432b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 11/20] fix: reject unknown prior types instead of treating the
 parameter as free with value 0

---
 appletree/parameter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/parameter.py b/appletree/parameter.py
index 03baebb..cd1670e 100644
--- a/appletree/parameter.py
+++ b/appletree/parameter.py
@@ -108,6 +108,8 @@ class Parameter:
                 self._parameter_dict[par_name] = np.clip(val, *setting["allowed_range"])
             elif prior_type == "fixed":
                 self._parameter_dict[par_name] = args["val"]
+            else:
+                raise ValueError(f"Unsupported prior_type {prior_type} of parameter {par_name}!")
 
     def sample_init(self):
         """Samping parameters from initial guess clipped by the allowed_range and set
-- 
2.43.0


From 2d73062dbf369e7e43ebbc51b3ed9931cf58081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 12/20] fix: SigmaMap must not silently ignore the configured
 maps

---
 appletree/config.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 54ac799..8c22393 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -449,6 +449,11 @@ class SigmaMap(Config):
                     f"configs, find {existing} and {value}."
                 )
             _cached_configs[map_name][self.llh_name] = value
+        elif get_file_path(_cached_configs[map_name]) != get_file_path(value):
+            raise ValueError(
+                f"You give different values for {self.name} in "
+                f"configs, find {_cached_configs[map_name]} and {value}."
+            )
 
     def build(self, llh_name: Optional[str] = None):
         """Read maps."""
@@ -468,6 +473,14 @@ class SigmaMap(Config):
                 i,
                 "default configuration",
             )
+            value = self._resolve_sigma_value(
+                _configs,
+                i,
+                "configuration",
+            )
+            if self.llh_name is None:
+                # not cached for any likelihood, but still what is configured
+                default = value
             m = Map(
                 method=self.method,
                 name=f"{self.name}_{sigma}",
@@ -476,11 +489,6 @@ class SigmaMap(Config):
             setattr(self, sigma, m)
 
             if self.llh_name is not None:
-                value = self._resolve_sigma_value(
-                    _configs,
-                    i,
-                    "configuration",
-                )
                 self._update_sigma_cache(m.name, value)
 
         self.median.build(llh_name=self.llh_name)
-- 
2.43.0


From 1851df0fc2702e7a527a05a42e9c9ca3d6177b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 13/20] fix: plot the maps each likelihood actually uses, not
 those of the last built one

---
 appletree/plot.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index b291874..e7519a4 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -14,6 +14,7 @@ from appletree.utils import errors_to_two_half_norm_sigmas
 from appletree.randgen import TwoHalfNorm
 from appletree.config import Map, SigmaMap
 from appletree.component import ComponentSim
+from appletree.share import _cached_functions
 
 
 class Plotter:
@@ -472,8 +473,12 @@ def _collect_maps(context):
                 provides = work[1]
                 # Look up the plugin class via its first provides name
                 plugin_class = component._plugin_class_registry[provides[0]]
+                # The class-level configs are shared by all likelihoods,
+                # the maps used in this component are those of its instance.
+                instance = _cached_functions[component.llh_name][f"{work[0]}_{component.name}"]
 
-                for config in plugin_class.takes_config.values():
+                for name in plugin_class.takes_config:
+                    config = getattr(instance, name)
                     if isinstance(config, SigmaMap):
                         key = (
                             config.median.file_path,
-- 
2.43.0


From 06c300114856b87dc42b75876841f51290db92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:02 +0000
Subject: [PATCH 14/20] fix: one-dimensional regular-binning maps can be
 evaluated, with the methods they support

---
 appletree/config.py        | 2 +-
 appletree/interpolation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 8c22393..e6fd02e 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -342,7 +342,7 @@ class Map(Config):
 
     def _get_regbin_interpolator(self, ndim):
         """Return the regular-binning interpolator for the given dimensionality."""
-        if ndim == 1:
+        if ndim == 1 and self.method in ("IDW", "LERP"):
             return interpolation.map_interpolator_regular_binning_1d
         key = (ndim, self.method)
         try:
diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 4f79a70..e7a2f1c 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -109,7 +109,7 @@ def map_interpolator_regular_binning_1d(pos, ref_pos_lowers, ref_pos_uppers, ref
     """
     assert len(pos.shape) == 1, "pos must have 1 columns"
 
-    ref_pos = jnp.linspace(ref_pos_lowers, ref_pos_uppers, len(ref_val))
+    ref_pos = jnp.linspace(ref_pos_lowers[0], ref_pos_uppers[0], len(ref_val))
     val = curve_interpolator(pos, ref_pos, ref_val)
 
     return val
-- 
2.43.0


From 0e87902966b04777adc4598f34667436380ee3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 15/20] fix: outputs superseded by a later registered plugin no
 longer overwrite it in the generated simulation

---
 appletree/component.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 94341fb..a8600fe 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -374,7 +374,11 @@ class ComponentSim(Component):
         code += f"def {func_name}(key, {nodep_data_name}, parameters):\n"
 
         for work in self.worksheet:
-            provides = "key, " + ", ".join(work[1])
+            # outputs superseded by a later registered plugin must not be overwritten
+            provides = "key, " + ", ".join(
+                data_name if self._plugin_class_registry[data_name].__name__ == work[0] else "_"
+                for data_name in work[1]
+            )
             depends_on = ", ".join(work[2])
             instance = work[0] + "_" + self.name
             code += f"{indent}{provides} = {instance}(key, parameters, {depends_on})\n"
-- 
2.43.0


From 68d37ec9849833df74b58b041feb3bf787430669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 16/20] fix: refuse an option declared twice in one
 takes_config decorator

---
 appletree/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/config.py b/appletree/config.py
index e6fd02e..483fcc5 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -46,6 +46,8 @@ def takes_config(*configs):
         for config in configs:
             if not isinstance(config, Config):
                 raise RuntimeError("Specify config options by Config objects")
+            if config.name in result:
+                raise RuntimeError(f"Attempt to specify config {config.name} twice")
             config.taken_by = plugin_class.__name__
             result[config.name] = config
 
-- 
2.43.0


From 65ec0f09f316161e72ec9bf6259832f928c53cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 17/20] fix: the lineage of a sigma map contains the parameter
 that scales it

---
 appletree/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/config.py b/appletree/config.py
index 483fcc5..a3aabf0 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -571,6 +571,7 @@ class SigmaMap(Config):
             "median": self.median.lineage,
             "lower": self.lower.lineage,
             "upper": self.upper.lineage,
+            "parameter": self.required_parameter(),
         }
 
 
-- 
2.43.0


From 9fbe3ada0483fcb7227cddfa6cab797a36f4e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 18/20] fix: keep the extraction efficiency within [0, 1]

---
 appletree/plugins/detector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/plugins/detector.py b/appletree/plugins/detector.py
index 76ff662..d878df2 100644
--- a/appletree/plugins/detector.py
+++ b/appletree/plugins/detector.py
@@ -153,7 +153,9 @@ class S2PE(Plugin):
     def simulate(self, key, parameters, num_electron_drifted, s2_lce, x, y):
         pos_true = jnp.stack([x, y]).T
         gas_gain_relative = self.gas_gain_relative.apply(pos_true)
-        extraction_eff = parameters["g2"] / (parameters["gas_gain"] * gas_gain_relative)
+        extraction_eff = jnp.clip(
+            parameters["g2"] / (parameters["gas_gain"] * gas_gain_relative), 0, 1.0
+        )
         key, num_electron_extracted = randgen.binomial(key, extraction_eff, num_electron_drifted)
 
         gas_gain = parameters["gas_gain"] * gas_gain_relative * s2_lce
-- 
2.43.0


From a696a0bcc6ddd6428feec7c739d83dc854ebc238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 19/20] fix: forget force_no_eff when a component is deduced
 again

---
 appletree/component.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index a8600fe..ecf538a 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -428,9 +428,8 @@ class ComponentSim(Component):
             data_names.remove("eff")
         if not force_no_eff:
             data_names += ["eff"]
-        else:
-            # track status of component
-            self.force_no_eff = True
+        # track status of component
+        self.force_no_eff = force_no_eff
 
         dependencies = self.dependencies_deduce(data_names, nodep_data_name=nodep_data_name)
         self.dependencies_simplify(dependencies)
-- 
2.43.0


From 80aeb958ca2d7e71edafae78d471d77ca77135fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:45 +0000
Subject: [PATCH 20/20] fix: reject plugins whose simulate takes arguments that
 are not declared

sanity_check compared the declared inputs with the arguments of simulate, but
accepted additional, undeclared arguments, which only failed when the generated
simulation was traced.
---
 appletree/plugin.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/appletree/plugin.py b/appletree/plugin.py
index 4c1074c..4d1e9f3 100644
--- a/appletree/plugin.py
+++ b/appletree/plugin.py
@@ -75,7 +75,14 @@ class Plugin:
     def sanity_check(self):
         """Check the consistency between ``depends_on``, ``provides`` and in(out)put of
         ``self.simulate``"""
-        arguments = inspect.getfullargspec(self.simulate)[0]
+        argspec = inspect.getfullargspec(self.simulate)
+        arguments = argspec[0]
+        # arguments with default value are not necessarily inputs
+        n_required = len(arguments) - len(argspec[3] or ())
+        if not n_required <= len(self.depends_on) + 3 <= len(arguments):
+            mesg = f"Plugin {self.__class__.__name__} depends on {self.depends_on}, "
+            mesg += f"but the arguments of its simulate are {arguments}!"
+            raise ValueError(mesg)
         if arguments[1] != "key":
             mesg = f"First argument of {self.__class__.__name__}"
             mesg += ".simulate should be 'key'."
-- 
2.43.0

