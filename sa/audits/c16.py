P, X, R = "appletree/parameter.py", "appletree/context.py", "appletree/randgen.py"
OOR = '''            if val < setting["allowed_range"][0] or val > setting["allowed_range"][1]:
                log_prior += -np.inf
            elif prior_type == "norm":'''
LOOP = '''        log_prior = 0

        for par_name in self._parameter_fit:
            val = self._parameter_dict[par_name]
            setting = self.par_config[par_name]
'''
ENTRIES = [
    ("bad", P, 'val < setting["allowed_range"][0] or', 'val < setting["allowed_range"][0] and'),
    ("bad", P, 'if val < setting["allowed_range"][0] or val > setting["allowed_range"][1]:',
     'if val > setting["allowed_range"][1]:'),
    ("bad", P, 'if val < setting["allowed_range"][0] or val > setting["allowed_range"][1]:',
     'if val <= setting["allowed_range"][0] or val > setting["allowed_range"][1]:'),
    ("bad", P, "log_prior += -np.inf", "log_prior += -1e10"),
    ("bad", P, "log_prior += -np.inf", "log_prior = -1e30"),
    ("bad", P, OOR, '''            out = val < setting["allowed_range"][0] or val > setting["allowed_range"][1]
            if out and prior_type != "uniform":
                log_prior += -np.inf
            elif prior_type == "norm":'''),
    ("bad", P, "log_prior += -((val - mean) ** 2) / 2 / std**2", "log_prior += -((val - mean) ** 2) / 2 / std"),
    ("bad", P, "log_prior += -((val - mean) ** 2) / 2 / std**2", "log_prior += -((val - mean) ** 2) / std**2"),
    ("bad", P, "log_prior += -((val - mean) ** 2) / 2 / std**2", "log_prior = -((val - mean) ** 2) / 2 / std**2"),
    ("bad", P, "                    sigma_pos=sigmas[0],\n                    sigma_neg=sigmas[1],\n                )\n            elif prior_type == \"free\"",
     "                    sigma_pos=sigmas[1],\n                    sigma_neg=sigmas[0],\n                )\n            elif prior_type == \"free\""),
    ("bad", P, LOOP, LOOP.replace("self._parameter_fit", "self._parameter_dict")),
    ("bad", P, "return log_prior", "return max(log_prior, -1e300)"),
    ("bad", R, "x < mu, -((x - mu) ** 2) / sigma_neg**2", "x > mu, -((x - mu) ** 2) / sigma_neg**2"),
    ("bad", X, "if not np.isfinite(log_prior):", "if np.isnan(log_prior):"),
    ("bad", X, "            # Bypass simulation if prior is invalid\n            return -np.inf, log_prior\n",
     "            log_prior = -1e300\n"),
    ("bad", X, "        if not np.isfinite(log_prior):", "        if not np.isfinite(log_prior) and repeat_times == 1:"),
    ("ok", X, "if not np.isfinite(log_prior):", "if log_prior == -np.inf or np.isnan(log_prior):"),
    ("ok", P, 'if val < setting["allowed_range"][0] or val > setting["allowed_range"][1]:',
     'lo, hi = setting["allowed_range"]\n            if not (lo <= val <= hi):'),
    ("ok", P, "log_prior += -((val - mean) ** 2) / 2 / std**2", "log_prior -= 0.5 * ((val - mean) / std) ** 2"),
    ("ok", P, "log_prior += -((val - mean) ** 2) / 2 / std**2", "pull = (mean - val) / std\n                log_prior = log_prior - 0.5 * pull * pull"),
    ("ok", P, "for par_name in self._parameter_fit:\n            val", "for par_name in self.parameter_fit:\n            val"),
    ("ok", P, OOR, '''            low, high = setting["allowed_range"]
            if val < low:
                return -np.inf
            if val > high:
                return -np.inf
            if prior_type == "norm":'''),
    ("ok", P, LOOP, '''        if any(
            self._parameter_dict[p] < self.par_config[p]["allowed_range"][0]
            or self._parameter_dict[p] > self.par_config[p]["allowed_range"][1]
            for p in self._parameter_fit
        ):
            return -np.inf
''' + LOOP),
    ("ok", P, LOOP, '''        log_prior = 0
        for par_name, val in self._parameter_dict.items():
            if par_name not in self._parameter_fit:
                continue
            setting = self.par_config[par_name]
'''),
    ("ok", P, LOOP, '''        log_prior = 0.0
        for par_name, setting in self.par_config.items():
            if setting["prior_type"] == "fixed":
                continue
            val = self._parameter_dict[par_name]
'''),
]
