X = "appletree/parameter.py"
K = "appletree/context.py"
ENTRIES = [
    ("bad", X, "return sorted(self._parameter_fit)", "return list(self._parameter_fit)"),
    ("bad", X, "return sorted(self._parameter_fit)", "return [p for p in self.par_config if p in self._parameter_fit]"),
    ("bad", X, "return sorted(self._parameter_fit)", "return sorted(self._parameter_fit, key=len)"),
    ("bad", X, "return sorted(self._parameter_fit)", "return sorted(self._parameter_fit, reverse=True)"),
    ("bad", X, "return self.get_parameter(self.parameter_fit)", "return self.get_parameter(self._parameter_fit)"),
    ("bad", X, "return self.get_parameter(self.parameter_fit)", "return self.get_parameter(list(self._parameter_fit))"),
    ("bad", X, "for par_name in self._parameter_dict:\n            try:\n                setting = self.par_config[par_name]\n            except KeyError:\n                raise RuntimeError(f'Requested parameter \"{par_name}\" not in given configuration')\n\n            args = setting[\"prior_args\"]\n            prior_type = setting[\"prior_type\"]\n\n            if prior_type == \"fixed\"",
     "for par_name in self._parameter_fit | self._parameter_fixed:\n            setting = self.par_config[par_name]\n            args = setting[\"prior_args\"]\n            prior_type = setting[\"prior_type\"]\n\n            if prior_type == \"fixed\""),
    ("bad", X, "self._parameter_dict = {par_name: 0 for par_name in self.par_config.keys()}", "self._parameter_dict = {par_name: 0 for par_name in set(self.par_config)}"),
    ("bad", K, "parameter_names=self.par_manager.parameter_fit,", "parameter_names=list(self.par_manager._parameter_fit),"),
    ("bad", K, "parameter_names=self.par_manager.parameter_fit,", "parameter_names=list(self.par_manager.par_config),"),
    ("bad", K, 'attrs["parameter_fit"] = self.par_manager.parameter_fit', 'attrs["parameter_fit"] = list(self.par_manager._parameter_fit)'),
    ("bad", K, "return len(self.par_manager.parameter_fit_array)", "return len(self.par_manager.get_all_parameter())"),
    ("bad", K, "p0.append(self.par_manager.parameter_fit_array)", "p0.append(self.par_manager[list(self.par_manager._parameter_fit)])"),
    ("ok", X, "return sorted(self._parameter_fit)", "names = list(self._parameter_fit)\n        return sorted(names)"),
    ("ok", X, "return sorted(self._parameter_fit)", "return sorted(p for p in self.par_config if self.par_config[p]['prior_type'] != 'fixed')"),
    ("ok", K, "return len(self.par_manager.parameter_fit_array)", "return len(self.par_manager.parameter_fit)"),
    ("ok", X, "return self.get_parameter(self.parameter_fit)", "return np.array([self._parameter_dict[p] for p in self.parameter_fit])"),
    ("ok", K, "        p0 = []\n        for _ in range(nwalkers):\n            self.par_manager.sample_init()\n            p0.append(self.par_manager.parameter_fit_array)\n",
     "        p0 = [self._start_point() for _ in range(nwalkers)]\n"),
]
