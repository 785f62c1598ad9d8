X = "appletree/context.py"
L = "appletree/likelihood.py"
P = "appletree/component.py"
R = "appletree/parameter.py"
S = "appletree/share.py"
U = "appletree/utils.py"
H = "appletree/hist.py"
A = "        _parameters = deepcopy(parameters)\n"
DC = "            likelihood = copy.deepcopy(value)\n"
PP = "        parameters = copy.deepcopy(self.par_manager.get_all_parameter())\n"
EQ = '    def set_binning(self, config):\n        """Set binning of likelihood."""\n'
ENTRIES = [
    ("bad", L, A, "        _parameters = parameters\n"),
    ("ok", L, A, "        _parameters = dict(parameters)\n"),
    ("ok", L, A, "        _parameters = {**parameters}\n"),
    ("ok", L, A, "        _parameters = {k: v for k, v in parameters.items()}\n"),
    ("ok", L, A, "        _parameters = parameters.copy()\n"),
    ("bad", X, PP, "        parameters = self.par_manager.get_all_parameter()\n"),
    ("ok", X, PP, "        parameters = dict(self.par_manager.get_all_parameter())\n"),
    ("ok", X, PP, "        parameters = {}\n        parameters.update(self.par_manager.get_all_parameter())\n"),
    ("bad", X, "            self.par_config = copy.deepcopy(par_config)\n", "            self.par_config = par_config\n"),
    ("ok", X, "            self.par_config = copy.deepcopy(par_config)\n", "            self.par_config = dict(par_config)\n"),
    ("bad", X, 'getattr(apt, likelihood_config.get("type", "Likelihood"))', 'getattr(apt, likelihood_config.pop("type", "Likelihood"))'),
    ("bad", X, DC, '            likelihood = value\n            likelihood.setdefault("parameter_alias", dict())\n'),
    ("bad", X, DC, '            likelihood = value\n            likelihood.pop("type", None)\n'),
    ("bad", X, DC, '            likelihood = dict(value)\n            likelihood["components"].pop("unused", None)\n'),
    ("ok", X, DC, '            likelihood = dict(value)\n            likelihood.setdefault("parameter_alias", dict())\n'),
    ("bad", X, '            self.update_url_base(instruct["url_base"])\n', '            self.update_url_base(instruct.pop("url_base"))\n'),
    ("bad", X, "        self.instruct = instruct\n", '        self.instruct = instruct\n        self.instruct["par_config"] = "x"\n'),
    ("bad", X, '        self.config = instruct.get("configs", {})\n', '        self.config = instruct.setdefault("configs", {})\n'),
    ("bad", X, '        print(f"Updated url_base to {url_base}")\n', '        self.config["url_base"] = url_base\n'),
    ("bad", L, '            kwargs["data_names"] = self._bins_on + ["eff"]\n', '            kwargs["data_names"] += ["eff"]\n'),
    ("bad", L, '            kwargs["data_names"] = self._bins_on + ["eff"]\n', '            kwargs["data_names"].append("eff")\n'),
    ("ok", L, '            kwargs["data_names"] = self._bins_on + ["eff"]\n', '            names = list(self._bins_on)\n            names.append("eff")\n            kwargs["data_names"] = names\n'),
    ("bad", L, '            self._bins = [np.array(b) for b in self._bins]\n', '            for i, b in enumerate(self._bins):\n                self._bins[i] = np.array(b)\n'),
    ("bad", L, EQ, EQ + '        config.setdefault("left", True)\n'),
    ("bad", L, EQ, EQ + '        if "clip" in config:\n            config["clip"].sort()\n'),
    ("bad", R, "            self.par_config = copy.deepcopy(parameter_config)\n", '            self.par_config = parameter_config\n            for v in self.par_config.values():\n                v["allowed_range"] = tuple(v["allowed_range"])\n'),
    ("ok", R, "            self.par_config = copy.deepcopy(parameter_config)\n", "            self.par_config = parameter_config\n"),
    ("bad", R, "        elif isinstance(keys, dict):\n            self.set_parameter(list(keys.keys()), keys.values())\n",
     "        elif isinstance(keys, dict):\n            self._parameter_dict = keys\n"),
    ("ok", R, "        elif isinstance(keys, dict):\n            self.set_parameter(list(keys.keys()), keys.values())\n",
     "        elif isinstance(keys, dict):\n            self._parameter_dict = {**self._parameter_dict, **keys}\n"),
    ("bad", S, "            _cached_configs.update({k: file_path_dict})\n", "            _cached_configs.update({k: v})\n"),
    ("bad", S, "                    file_path_dict[kk] = get_file_path(vv)\n", "                    v[kk] = file_path_dict[kk] = get_file_path(vv)\n"),
    ("ok", S, "            file_path_dict = dict()\n", "            file_path_dict = dict(v)\n"),
    ("bad", P, "        mask = np.ones(len(result[-1]), dtype=bool)\n", "        mask = np.ones(len(result[-1]), dtype=bool)\n        self.bins[0].sort()\n"),
    ("bad", P, '        if isinstance(data_names, str):\n            data_names = [data_names]\n', '        if isinstance(data_names, str):\n            data_names = [data_names]\n        data_names.append("eff")\n'),
    ("bad", L, "        llh = self.logpdf(energies, yields)\n", '        parameters["x"] = 1\n        llh = self.logpdf(energies, yields)\n'),
    ("bad", S, "            file_path_dict = dict()\n", "            file_path_dict = v\n"),
    ("bad", P, "        data_names = list(data_names)\n", ""),
    ("bad", U, "    mask = data > clip[0]\n", "    data.sort()\n    mask = data > clip[0]\n"),
    ("bad", U, "    mask = data[:, 0] > x_clip[0]\n", "    data[:, 0] = np.round(data[:, 0])\n    mask = data[:, 0] > x_clip[0]\n"),
    ("ok", U, "    mask = data > clip[0]\n", "    data = np.sort(data)\n    mask = data > clip[0]\n"),
    ("ok", U, "    mask = data > clip[0]\n", "    data = np.array(data)\n    data.sort()\n    mask = data > clip[0]\n"),
    ("bad", U, "    mask = data > clip[0]\n", "    np.clip(data, *clip, out=data)\n    mask = data > clip[0]\n"),
]
