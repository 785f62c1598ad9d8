X = "appletree/parameter.py"
R = "appletree/randgen.py"
CL = 'self._parameter_dict[par_name] = np.clip(val, *setting["allowed_range"])'
ENTRIES = [
    ("bad", X, CL, 'self._parameter_dict[par_name] = val'),
    ("bad", X, '                val = np.random.uniform(**kwargs)\n                ' + CL, '                val = np.random.uniform(**kwargs)\n                self._parameter_dict[par_name] = val'),
    ("bad", X, CL, 'self._parameter_dict[par_name] = np.clip(val, None, setting["allowed_range"][1])'),
    ("bad", X, CL, 'self._parameter_dict[par_name] = np.clip(val, setting["allowed_range"][0], None)'),
    ("bad", X, CL, 'self._parameter_dict[par_name] = np.maximum(val, setting["allowed_range"][0])'),
    ("bad", X, '"high": args["upper"]', '"high": args["lower"]'),
    ("bad", X, '"scale": args["std"]', '"scale": args["std"] ** 2'),
    ("bad", X, '"scale": setting["init_std"]', '"scale": setting["init_mean"]'),
    ("bad", X, '"mu": args["mu"],\n                    "sigma_pos": sigmas[0],\n                    "sigma_neg": sigmas[1]', '"mu": args["mu"],\n                    "sigma_pos": sigmas[1],\n                    "sigma_neg": sigmas[0]'),
    ("bad", X, 'self._parameter_dict[par_name] = args["val"]', 'self._parameter_dict[par_name] = np.clip(args["val"], 0, 1)'),
    ("bad", X, '            if prior_type == "fixed":\n                self._parameter_dict[par_name] = args["val"]\n            else:', '            if prior_type == "fixed" and "val" not in args:\n                self._parameter_dict[par_name] = args["val"]\n            else:'),
    ("bad", X, '["prior_type"] == "fixed":\n                self._parameter_fixed', '["prior_type"] in ("fixed", "free"):\n                self._parameter_fixed'),
    ("bad", X, '        assert all_exist, f"{not_exist} not found!"\n\n        if isinstance(keys, list)', '        if isinstance(keys, list)'),
    ("bad", X, 'assert len(keys) == len(vals), ', 'assert len(keys) <= len(vals), '),
    ("bad", X, '            assert len(keys) == len(vals), "keys must have the same length as vals!"\n', ''),
    ("bad", X, 'self.set_parameter(list(keys.keys()), keys.values())', 'self.set_parameter(sorted(keys.keys()), keys.values())'),
    ("bad", X, 'self.set_parameter(list(keys.keys()), keys.values())', 'self.set_parameter(list(keys.keys()), sorted(keys.values()))'),
    ("bad", X, 'self._parameter_dict[keys] = vals', 'self._parameter_dict = {keys: vals}'),
    ("bad", X, "                if key not in self._parameter_dict:\n                    not_exist.append(key)\n            all_exist", "                if key not in self._parameter_dict and not key.startswith('_'):\n                    not_exist.append(key)\n            all_exist"),
    ("bad", R, "sigma_pos / (sigma_pos + sigma_neg)", "sigma_neg / (sigma_pos + sigma_neg)"),
    ("ok", X, CL, 'low, high = setting["allowed_range"]\n                self._parameter_dict[par_name] = min(max(val, low), high)'),
    ("ok", X, '''            for key, val in zip(keys, vals):
                self._parameter_dict[key] = val
''', '''            self._parameter_dict.update(zip(keys, vals))
'''),
    ("ok", X, 'self.set_parameter(list(keys.keys()), keys.values())', 'self._parameter_dict.update(keys)'),
    ("ok", X, '''                kwargs = {
                    "loc": args["mean"],
                    "scale": args["std"],
                }
                val = np.random.normal(**kwargs)
''', '''                val = np.random.normal(args["mean"], args["std"])
'''),
    ("ok", X, '''                kwargs = {
                    "loc": args["mean"],
                    "scale": args["std"],
                }
                val = np.random.normal(**kwargs)
''', '''                val = args["mean"] + args["std"] * np.random.normal()
'''),
    ("ok", X, '''            not_exist = []
            for key in keys:
                if key not in self._parameter_dict:
                    not_exist.append(key)
            all_exist = not_exist == []
''', '''            not_exist = [key for key in keys if key not in self._parameter_dict]
            all_exist = len(not_exist) == 0
'''),
    ("ok", X, '''        for par_name in self._parameter_dict:
            try:
                setting = self.par_config[par_name]
            except KeyError:
                raise RuntimeError(f'Requested parameter "{par_name}" not in given configuration')

            args = setting["prior_args"]
            prior_type = setting["prior_type"]

            if prior_type == "norm":''', '''        for par_name, setting in self.par_config.items():
            args = setting["prior_args"]
            prior_type = setting["prior_type"]

            if prior_type == "norm":'''),
    ("ok", X, '''        for par_name in self._parameter_dict:
            try:
                setting = self.par_config[par_name]
            except KeyError:
                raise RuntimeError(f'Requested parameter "{par_name}" not in given configuration')

            args = setting["prior_args"]
            prior_type = setting["prior_type"]

            if prior_type == "fixed":
                self._parameter_dict[par_name] = args["val"]
            else:
                kwargs = {
                    "loc": setting["init_mean"],
                    "scale": setting["init_std"],
                }
                val = np.random.normal(**kwargs)
                self._parameter_dict[par_name] = np.clip(val, *setting["allowed_range"])
''', '''        for par_name in self._parameter_dict:
            self._parameter_dict[par_name] = self._draw_init(par_name)

    def _draw_init(self, par_name):
        setting = self.par_config[par_name]
        if setting["prior_type"] == "fixed":
            return setting["prior_args"]["val"]
        val = np.random.normal(setting["init_mean"], setting["init_std"])
        return np.clip(val, *setting["allowed_range"])
'''),
]
