K, L, X, F = (f"appletree/{n}.py" for n in ("component", "likelihood", "context", "config"))
ENTRIES = [
    ("bad", K, "            self.needed_parameters |= set(plugin.parameters)\n", "            self.needed_parameters = set(plugin.parameters)\n"),
    ("bad", K, "config.required_parameter(self.llh_name)", "config.required_parameter()"),
    ("bad", K, "        self.needed_parameters: Set[str] = set()\n        # Add rate_name", "        # Add rate_name"),
    ("bad", K, '        if self.rate_name != "":\n            self.needed', "        if True:\n            self.needed"),
    ("bad", K, "                if required_parameter is not None:\n", "                if required_parameter is not None and not self.needed_parameters:\n"),
    ("bad", K, "                if required_parameter is not None:\n                    self", "                if required_parameter not in self.needed_parameters:\n                    self"),
    ("bad", K, "            self.needed_parameters |= set(plugin.parameters)\n", "            self.needed_parameters ^= set(plugin.parameters)\n"),
    ("bad", K, "        self.needed_parameters.add(self.rate_name)\n\n    def simulate", "\n    def simulate"),
    ("bad", L, "        self.needed_parameters |= self.components[component_name].needed_parameters\n", "        self.needed_parameters = self.components[component_name].needed_parameters\n"),
    ("bad", L, "                self.needed_parameters.remove(v)\n", ""),
    ("bad", L, "                self.needed_parameters.add(k)\n", ""),
    ("bad", L, "            if v in self.needed_parameters:\n", "            if k not in self.needed_parameters:\n"),
    ("bad", L, "            if v in self.needed_parameters:\n                self.needed_parameters.add(k)\n                self.needed_parameters.remove(v)",
     "            if v in self.needed_parameters and k not in self.needed_parameters:\n                self.needed_parameters.add(k)\n                self.needed_parameters.remove(v)"),
    ("bad", X, "        self.needed_parameters |= self.likelihoods[likelihood_name].needed_parameters\n", ""),
    ("bad", X, "        if not provided.issubset(needed):\n", "        if provided.isdisjoint(needed):\n"),
    ("bad", X, "        if not provided.issubset(needed):\n", "        if not needed.issubset(provided):\n"),
    ("bad", X, "        if not provided.issubset(needed):\n", "        if len(provided) > len(needed):\n"),
    ("bad", X, "                needed_parameters.add(k)\n", "                needed_parameters.add(v)\n"),
    ("bad", X, "            if p not in needed_rate_parameters and p in self.par_config:\n", "            if p in self.par_config:\n"),
    ("bad", X, "self.par_config.update({k: self.par_config[v]})", "self.par_config.update({v: self.par_config[v]})"),
    ("bad", F, "            if len(_configs) == 4:\n                return _configs[-1]\n", "            if len(_configs) > 4:\n                return _configs[-1]\n"),
    ("bad", F, '                return self.name + "_sigma"\n', '                return self.name\n'),
    ("bad", F, "        _configs = self.get_configs(llh_name=llh_name)\n        # Find", "        _configs = self.get_configs()\n        # Find"),
    ("ok", K, "            self.needed_parameters |= set(plugin.parameters)\n", "            self.needed_parameters.update(plugin.parameters)\n"),
    ("ok", K, "            self.needed_parameters |= set(plugin.parameters)\n", "            for name in plugin.parameters:\n                self.needed_parameters.add(name)\n"),
    ("ok", K, "            for config in plugin.takes_config.values():\n                required_parameter = config.required_parameter(self.llh_name)\n                if required_parameter is not None:\n                    self.needed_parameters |= {required_parameter}\n",
     "            wanted = {c.required_parameter(self.llh_name) for c in plugin.takes_config.values()}\n            self.needed_parameters |= wanted - {None}\n"),
    ("ok", K, '        if self.rate_name != "":\n', "        if self.rate_name:\n"),
    ("ok", L, "        self.needed_parameters |= self.components[component_name].needed_parameters\n", "        self.needed_parameters = self.needed_parameters.union(component.needed_parameters)\n"),
    ("ok", L, "                self.needed_parameters.add(k)\n                self.needed_parameters.remove(v)\n", "                self.needed_parameters = (self.needed_parameters - {v}) | {k}\n"),
    ("ok", X, "        if not provided.issubset(needed):\n", "        if provided - needed:\n"),
    ("ok", X, "        if not provided.issubset(needed):\n", "        if any(p not in needed for p in provided):\n"),
    ("ok", X, "        if not provided.issubset(needed):\n", "        if not provided <= needed:\n"),
    ("ok", F, '            if len(_configs) == 4:\n                return _configs[-1]\n            else:\n                return self.name + "_sigma"\n',
     '            return _configs[3] if len(_configs) > 3 else f"{self.name}_sigma"\n'),
]
