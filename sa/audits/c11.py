F = "appletree/config.py"
S = "appletree/share.py"
X = "appletree/context.py"
RES = '''        if self.name in _cached_configs:
            value = _cached_configs[self.name]
        else:
            value = self.get_default()
            if transform is not None:
                value = transform(value)
            _cached_configs[self.name] = value
'''
PER = '''            try:
                return value[llh_name]
            except KeyError:
                raise ValueError(
                    f"You specified {self.name} as a dictionary. "
                    f"The key of it should be the name of one "
                    f"of the likelihood, but it is {llh_name}."
                )
'''
SET = '''        if isinstance(v, (float, int, list)):
            _cached_configs.update({k: v})
        elif isinstance(v, str):
            file_path = get_file_path(v)
            _cached_configs.update({k: file_path})
'''
SUB = '''                if isinstance(vv, (float, int, list)):
                    file_path_dict[kk] = vv
                elif isinstance(vv, str):
                    file_path_dict[kk] = get_file_path(vv)
                else:
                    raise NotImplementedError
'''
GC = '''        if self.name in _cached_configs:
            _configs = _cached_configs[self.name]
        else:
            _configs = self.get_default()
            # Update values to sharing dictionary
            _cached_configs[self.name] = _configs
'''
ENTRIES = [
    ("bad", F, "        if self.name in _cached_configs:\n            value = _cached_configs[self.name]\n", "        if self.name in _cached_configs and _cached_configs[self.name]:\n            value = _cached_configs[self.name]\n"),
    ("bad", F, RES, "        value = _cached_configs.get(self.name) or self.get_default()\n        _cached_configs[self.name] = value\n"),
    ("bad", F, RES, "        value = self.get_default()\n        if self.name in _cached_configs:\n            value = _cached_configs[self.name]\n        _cached_configs[self.name] = value\n"),
    ("bad", F, RES, RES.replace("            if transform is not None:\n                value = transform(value)\n", "")),
    ("bad", F, RES, RES.replace("            _cached_configs[self.name] = value\n", "        _cached_configs[self.name] = self.default\n")),
    ("bad", F, PER, "            return value.get(llh_name, self.default)\n"),
    ("bad", F, PER, "            return value.get(llh_name)\n"),
    ("bad", F, PER, "            try:\n                return value[llh_name]\n            except KeyError:\n                return next(iter(value.values()))\n"),
    ("bad", F, PER, "            if not value.get(llh_name):\n                return self.get_default()\n            return value[llh_name]\n"),
    ("bad", F, "        if self.default is not OMITTED:\n            return self.default\n", "        if self.default is not OMITTED and self.default:\n            return self.default\n"),
    ("bad", F, '        raise ValueError(f"Missing option {self.name} required by {self.taken_by}")\n', "        return None\n"),
    ("bad", F, "self.value = self._resolve_cached_config(llh_name)\n\n    @property", "self.value = self._resolve_cached_config(None)\n\n    @property"),
    ("bad", F, GC, GC.replace("if self.name in _cached_configs:", "if _cached_configs.get(self.name):")),
    ("bad", F, "        if llh_name is None and self.llh_name is not None:", "        if self.llh_name is not None:"),
    ("bad", F, "                # not cached for any likelihood, but still what is configured\n                default = value\n", "                pass\n"),
    ("bad", F, "            if existing != value:\n                raise", "            if False:\n                raise"),
    ("bad", F, "            _cached_configs[map_name][self.llh_name] = value\n", "            _cached_configs[map_name] = {self.llh_name: value}\n"),
    ("bad", F, "        elif get_file_path(_cached_configs[map_name]) != get_file_path(value):", "        elif False:"),
    ("bad", S, SET, SET.replace("(float, int, list)", "(float, list)")),
    ("bad", S, SET, SET.replace("            file_path = get_file_path(v)\n", "            file_path = v\n")),
    ("bad", S, SET, SET.replace("            _cached_configs.update({k: v})\n", "            _cached_configs.setdefault(k, v)\n")),
    ("bad", S, SUB, SUB.replace("get_file_path(vv)", "vv")),
    ("bad", S, "            _cached_configs.update({k: file_path_dict})\n", "            _cached_configs.update(file_path_dict)\n"),
    ("bad", S, SUB, SUB.replace("raise NotImplementedError", "pass")),
    ("bad", X, "        set_global_config(self.config)\n\n        self.backend_h5", "        self.backend_h5"),
    ("bad", X, "        set_global_config(self.config)\n\n        self.backend_h5", "        self.backend_h5"),
    ("ok", F, RES, '''        if self.name not in _cached_configs:
            default = self.get_default()
            _cached_configs[self.name] = default if transform is None else transform(default)
        value = _cached_configs[self.name]
'''),
    ("ok", F, RES, '''        try:
            value = _cached_configs[self.name]
        except KeyError:
            value = self.get_default()
            if transform is not None:
                value = transform(value)
            _cached_configs[self.name] = value
'''),
    ("ok", F, PER, '''            if llh_name not in value:
                raise ValueError(f"{self.name} is not configured for {llh_name}")
            return value[llh_name]
'''),
    ("ok", F, "        if self.default is not OMITTED:\n            return self.default\n\n        raise ValueError(f\"Missing option {self.name} required by {self.taken_by}\")\n",
     "        if self.default is OMITTED:\n            raise ValueError(f\"Missing option {self.name} required by {self.taken_by}\")\n        return self.default\n"),
    ("ok", S, SET, '''        if isinstance(v, (float, int, list)):
            _cached_configs[k] = v
        elif isinstance(v, str):
            _cached_configs[k] = get_file_path(v)
'''),
    ("ok", S, SUB, '''                if isinstance(vv, str):
                    vv = get_file_path(vv)
                elif not isinstance(vv, (float, int, list)):
                    raise NotImplementedError
                file_path_dict[kk] = vv
'''),
    ("ok", F, '''            default = self._resolve_sigma_value(
                _configs_default,
                i,
                "default configuration",
            )
            value = self._resolve_sigma_value(
                _configs,
                i,
                "configuration",
            )
            if self.llh_name is None:
                # not cached for any likelihood, but still what is configured
                default = value
''', '''            value = self._resolve_sigma_value(_configs, i, "configuration")
            if self.llh_name is not None:
                default = self._resolve_sigma_value(_configs_default, i, "default configuration")
            else:
                default = value
'''),
]
