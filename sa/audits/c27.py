U = "appletree/utils.py"
S = "appletree/share.py"
F = "appletree/config.py"
REP = "    unused_configs = set(_cached_configs.keys()) - _cached_configs.accessed_keys\n    if unused_configs:\n"
GET = "        self.accessed_keys.add(key)\n        return super().__getitem__(key)\n"
SETI = "        self.accessed_keys.add(key)\n        return super().__setitem__(key, value)\n"
RES = '''        if self.name in _cached_configs:
            value = _cached_configs[self.name]
        else:
            value = self.get_default()
            if transform is not None:
                value = transform(value)
            _cached_configs[self.name] = value
'''
GC = '''        if self.name in _cached_configs:
            _configs = _cached_configs[self.name]
'''
ENTRIES = [
    ("bad", S, GET, "        return super().__getitem__(key)\n"),
    ("bad", S, GET, "        value = super().__getitem__(key)\n        if isinstance(value, dict):\n            self.accessed_keys.add(key)\n        return value\n"),
    ("bad", S, SETI, "        return super().__setitem__(key, value)\n"),
    ("bad", S, SETI, "        self.accessed_keys.add(key)\n"),
    ("bad", S, "            _cached_configs.update({k: v})\n", "            _cached_configs[k] = v\n"),
    ("bad", S, "            _cached_configs.update({k: file_path})\n", "            _cached_configs[k] = file_path\n"),
    ("bad", S, "            _cached_configs.update({k: file_path_dict})\n", "            _cached_configs[k] = file_path_dict\n"),
    ("bad", S, "        super().clear()\n        self.accessed_keys.clear()\n", "        super().clear()\n"),
    ("bad", S, "        super().clear()\n        self.accessed_keys.clear()\n", "        self.accessed_keys.clear()\n"),
    ("bad", S, "    def clear(self):\n        super().clear()\n        self.accessed_keys.clear()\n", ""),
    ("bad", S, "    _cached_configs.clear()\n", "    _cached_configs.accessed_keys.clear()\n"),
    ("bad", S, "    _cached_functions.clear()\n", ""),
    ("bad", U, REP, "    unused_configs = _cached_configs.accessed_keys - set(_cached_configs.keys())\n    if unused_configs:\n"),
    ("bad", U, REP, "    unused_configs = set(_cached_configs.keys()) & _cached_configs.accessed_keys\n    if unused_configs:\n"),
    ("bad", U, REP, "    unused_configs = set(_cached_configs.keys()) ^ _cached_configs.accessed_keys\n    if unused_configs:\n"),
    ("bad", U, REP, "    unused_configs = set(_cached_configs.keys()) - _cached_configs.accessed_keys\n    if not unused_configs:\n"),
    ("bad", U, REP, "    unused_configs = set(_cached_configs.keys()) - _cached_configs.accessed_keys\n    if not _cached_configs.accessed_keys:\n"),
    ("bad", U, REP, "    unused_configs = {k for k in _cached_configs if k not in _cached_configs.accessed_keys and _cached_configs[k]}\n    if unused_configs:\n"),
    ("bad", F, RES, RES.replace("value = _cached_configs[self.name]\n        else", "value = _cached_configs.get(self.name)\n        else")),
    ("bad", F, GC, GC.replace("_cached_configs[self.name]", "_cached_configs.get(self.name)")),
    ("bad", F, RES, RES.replace("_cached_configs[self.name] = value", "_cached_configs.update({self.name: value})")),
    ("bad", "appletree/component.py", "current = _cached_configs.get(config.name, None)", "current = _cached_configs[config.name] if config.name in _cached_configs else None"),
    ("ok", S, GET, "        value = super().__getitem__(key)\n        self.accessed_keys.add(key)\n        return value\n"),
    ("ok", S, GET, "        if key not in self.accessed_keys:\n            self.accessed_keys.add(key)\n        return super().__getitem__(key)\n"),
    ("ok", S, "            _cached_configs.update({k: v})\n", "            _cached_configs.update(dict([(k, v)]))\n"),
    ("ok", S, "        super().clear()\n        self.accessed_keys.clear()\n", "        self.accessed_keys = set()\n        super().clear()\n"),
    ("ok", U, REP, "    unused_configs = set(_cached_configs).difference(_cached_configs.accessed_keys)\n    if len(unused_configs) > 0:\n"),
    ("ok", U, REP, "    unused_configs = sorted(k for k in _cached_configs if k not in _cached_configs.accessed_keys)\n    if unused_configs:\n"),
    ("ok", U, REP, "    accessed = _cached_configs.accessed_keys\n    unused_configs = {k for k in _cached_configs.keys() if k not in accessed}\n    if not unused_configs:\n        return\n    if True:\n"),
    ("ok", F, RES, '''        if self.name not in _cached_configs:
            value = self.get_default()
            if transform is not None:
                value = transform(value)
            _cached_configs[self.name] = value
        value = _cached_configs[self.name]
'''),
    ("ok", F, RES, '''        try:
            value = _cached_configs[self.name]
        except KeyError:
            value = self.get_default()
            if transform is not None:
                value = transform(value)
            _cached_configs[self.name] = value
'''),
]
