F = "appletree/config.py"
B = '''        add_pos = (upper - median) * sigma
        add_neg = (median - lower) * sigma
        add = jnp.where(sigma > 0, add_pos, add_neg)
        return median + add
'''
S = '''        if self.required_parameter() is None:
            sigma = 1.0
        else:
            sigma = parameters[self.required_parameter()]
'''
Q = '''        if isinstance(_configs, list):
            if len(_configs) == 4:
                return _configs[-1]
            else:
                return self.name + "_sigma"
        else:
            return None
'''
V = '''        if isinstance(configs, list):
            return configs[index]
        if not isinstance(configs, str):
            raise ValueError(
                f"If {self.name}'s {label} is not a list, " "then it should be a string."
            )
        return configs
'''
W = '''            if self.llh_name is None:
                # not cached for any likelihood, but still what is configured
                default = value
'''
BU = "        self.lower.build(llh_name=self.llh_name)\n"
ENTRIES = [
    ("bad", F, B, B.replace("sigma > 0", "sigma < 0")),
    ("bad", F, B, B.replace("sigma > 0", "sigma > 1")),
    ("bad", F, B, B.replace("(median - lower)", "(lower - median)")),
    ("bad", F, B, B.replace("add_neg = (median - lower) * sigma", "add_neg = (median - lower) * jnp.abs(sigma)")),
    ("bad", F, B, B.replace("(upper - median) * sigma", "(upper - median) * sigma**2")),
    ("bad", F, B, B.replace("(upper - median)", "(upper - lower)")),
    ("bad", F, B, B.replace("add_pos, add_neg", "add_neg, add_pos")),
    ("bad", F, B, B.replace("return median", "return lower")),
    ("bad", F, B, B.replace("return median + add", "return median + jnp.clip(add, 0.0)")),
    ("bad", F, B, B.replace("median + add", "median * (1 + add)")),
    ("bad", F, "        lower = self.lower.apply(pos)\n        upper = self.upper.apply(pos)\n", "        lower = self.upper.apply(pos)\n        upper = self.lower.apply(pos)\n"),
    ("bad", F, S, S.replace("parameters[self.required_parameter()]", 'parameters[self.name + "_sigma"]')),
    ("bad", F, S, S.replace("parameters[self.required_parameter()]", 'jnp.clip(parameters[self.required_parameter()], -3, 3)')),
    ("bad", F, Q, Q.replace("_configs[-1]", "_configs[0]")),
    ("bad", F, Q, Q.replace("== 4", ">= 3")),
    ("bad", F, Q, Q.replace("== 4", "> 4")),
    ("bad", F, Q, Q.replace('"_sigma"', '"_scale"')),
    ("bad", F, Q, Q.replace("            return None\n", '            return self.name + "_sigma"\n')),
    ("bad", F, V, V.replace("[index]", "[0]")),
    ("bad", F, V, V.replace("[index]", "[-index]")),
    ("bad", F, 'sigmas = ["median", "lower", "upper"]', 'sigmas = ["median", "upper", "lower"]'),
    ("bad", F, 'sigmas = ["median", "lower", "upper"]', 'sigmas = ["lower", "median", "upper"]'),
    ("bad", F, "self._update_sigma_cache(m.name, value)", "self._update_sigma_cache(m.name, default)"),
    ("bad", F, BU, "        self.lower.build()\n"),
    ("bad", F, W, ""),
    ("bad", F, "                method=self.method,\n                name=f\"{self.name}_{sigma}\"", "                name=f\"{self.name}_{sigma}\""),
    ("ok", F, B, '''        positive = jnp.maximum(sigma, 0.0)
        negative = jnp.minimum(sigma, 0.0)
        return median + positive * (upper - median) + negative * (median - lower)
'''),
    ("ok", F, B, '''        return jnp.where(sigma >= 0, median + (upper - median) * sigma, median - (lower - median) * sigma)
'''),
    ("ok", F, B, '''        slope = jnp.where(sigma > 0, upper - median, median - lower)
        return sigma * slope + median
'''),
    ("ok", F, B, '''        return jnp.where(sigma > 0, (1 - sigma) * median + sigma * upper, (1 + sigma) * median - sigma * lower)
'''),
    ("ok", F, S, '''        name = self.required_parameter()
        sigma = 1.0 if name is None else parameters[name]
'''),
    ("ok", F, S, S.replace("sigma = 1.0", "sigma = 0.0")),
    ("ok", F, S, S.replace("sigma = 1.0", "return self.median.apply(pos)")),
    ("ok", F, Q, '''        if not isinstance(_configs, list):
            return None
        return _configs[3] if len(_configs) == 4 else f"{self.name}_sigma"
'''),
    ("ok", F, V, V.replace("if isinstance(configs, list):\n            return configs[index]\n        ", "").replace("if not isinstance(configs, str)", "if isinstance(configs, list):\n            return list(configs)[index]\n        elif not isinstance(configs, str)")),
    ("ok", F, W, "            default = default if self.llh_name is not None else value\n"),
    ("ok", F, '''        self.median.build(llh_name=self.llh_name)
        self.lower.build(llh_name=self.llh_name)
        self.upper.build(llh_name=self.llh_name)
''', '''        for m in (self.median, self.lower, self.upper):
            m.build(llh_name=llh_name)
'''),
    ("ok", F, '''            m = Map(
                method=self.method,
                name=f"{self.name}_{sigma}",
                default=default,
            )
            setattr(self, sigma, m)
''', '''            m = self._make_map(sigma, default)
            setattr(self, sigma, m)
'''+"#"),
    ("ok", F, '''        sigmas = ["median", "lower", "upper"]
        for i, sigma in enumerate(sigmas):
''', '''        for i, sigma in zip(range(3), ("median", "lower", "upper")):
'''),
]
ENTRIES[-2] = ("ok", F, "            m = Map(\n                method=self.method,\n                name=f\"{self.name}_{sigma}\",\n                default=default,\n            )\n",
               "            map_name = self.name + \"_\" + sigma\n            m = Map(name=map_name, default=default, method=self.method)\n")
