U = "appletree/utils.py"
S = "appletree/share.py"
F = "appletree/config.py"
X = "appletree/context.py"
L = "appletree/likelihood.py"
P = "appletree/component.py"
G1 = '''        if likelihood_name in self.likelihoods:
            raise ValueError(f"Likelihood named {likelihood_name} already existed!")
'''
G2 = '''        if component_name in self.components:
            raise ValueError(f"Component named {component_name} already existed!")

'''
SV = '''        if key in self:
            raise RuntimeError(
                f"Likelihood name {key} is already cached. "
                "If you want to overwrite it, please set another llh_name."
            )
        super().__setitem__(key, value)
'''
ENTRIES = [
    ("bad", X, G1, ""),
    ("bad", X, G1, "        if likelihood_name in self.likelihoods:\n            print('already existed')\n"),
    ("bad", X, G1, "        if likelihood_name in self.likelihoods:\n            return\n"),
    ("bad", X, "        if likelihood_name in self.likelihoods:\n", "        if likelihood_config in self.likelihoods.values():\n"),
    ("bad", L, G2, ""),
    ("bad", L, G2 + "        # Initialize component\n", "        # Initialize component\n"),
    ("bad", L, "        if len(self.components) != 0:\n            raise AssertionError(self.warning)\n        super().register", "        self.components = dict()\n        super().register"),
    ("bad", U, "    is_exists = name in dir(module1)\n    if is_exists and not force:", "    is_exists = name in dir(module1)\n    if is_exists and force:"),
    ("bad", U, "    is_exists = name in dir(module1)\n", "    is_exists = name in dir(module2)\n"),
    ("bad", U, "    name = module2.__name__.split(\".\")[-1]\n    is_exists = name in dir(module1)\n", "    name = module2.__name__.split(\".\")[-1]\n    is_exists = name in dir(module1)\n    setattr(module1, name, module2)\n"),
    ("bad", U, "        _add_extension(module1, x, base, force=force)", "        _add_extension(module1, x, base, force=True)"),
    ("bad", U, "        is_exists = subclass.__name__ in dir(module)\n        if is_exists and not force:", "        is_exists = subclass.__name__ in dir(module)\n        if is_exists and force:"),
    ("bad", U, "        is_exists = subclass.__name__ in dir(module)\n        if is_exists and not force:", "        is_exists = subclass.__name__ in dir(module)\n        if False:"),
    ("bad", U, "        is_exists = subclass.__name__ in dir(module)\n        if is_exists and not force:", "        is_exists = subclass.__name__ in dir(module)\n        if is_exists and not force:\n            return\n        if is_exists and not force:"),
    ("bad", S, SV, "        super().__setitem__(key, value)\n"),
    ("bad", S, SV, "        super().__setitem__(key, value)\n        if key in self:\n            raise RuntimeError('already cached')\n"),
    ("bad", S, SV, "        if key not in self:\n            super().__setitem__(key, value)\n"),
    ("bad", S, "_cached_functions = StaticValueDict()", "_cached_functions = dict()"),
    ("bad", P, "        _cached_functions[self.llh_name] = dict()\n", "        _cached_functions.setdefault(self.llh_name, dict())\n"),
    ("bad", P, "        _cached_functions[self.llh_name] = dict()\n", "        _cached_functions.update({self.llh_name: dict()})\n"),
    ("bad", P, "        _cached_functions[self.llh_name] = dict()\n", "        if self.llh_name not in _cached_functions:\n            _cached_functions[self.llh_name] = dict()\n"),
    ("bad", P, "                    if items.default == new_items.default:", "                    if items.default != new_items.default:"),
    ("bad", P, "                    if items.default == new_items.default:", "                    if not items.default or items.default == new_items.default:"),
    ("bad", P, "                    if new_config != config_name:", "                    if new_config == config_name:"),
    ("bad", P, "            if plugin in already_seen:\n                continue\n            already_seen.append(plugin)\n", "            if plugin not in already_seen:\n                already_seen.append(plugin)\n                continue\n"),
    ("bad", F, "                if config.name in plugin_class.takes_config:\n                    raise RuntimeError(f\"Attempt to specify config {config.name} twice\")\n", "                pass\n"),
    ("bad", F, "            if config.name in result:\n                raise RuntimeError(f\"Attempt to specify config {config.name} twice\")\n", ""),
    ("bad", F, "immutabledict({**plugin_class.takes_config, **result})", "immutabledict(result)"),
    ("bad", "appletree/plugin.py", "    utils._add_extension(module, plugin, Plugin, force=force)", "    utils._add_extension(module, plugin, Plugin, force=True)"),
    ("ok", X, G1, "        if likelihood_name in self.likelihoods.keys():\n            raise ValueError(f\"Likelihood named {likelihood_name} already existed!\")\n"),
    ("ok", L, G2, "        existing = list(self.components)\n        if component_name in existing:\n            raise ValueError(f\"Component named {component_name} already existed!\")\n\n"),
    ("ok", S, SV, "        if key not in self:\n            super().__setitem__(key, value)\n            return\n        raise RuntimeError('already cached')\n"),
    ("ok", U, "    is_exists = name in dir(module1)\n", "    is_exists = hasattr(module1, name)\n"),
    ("ok", U, "        is_exists = subclass.__name__ in dir(module)\n", "        is_exists = getattr(module, subclass.__name__, None) is not None\n"),
    ("ok", P, "        _cached_functions[self.llh_name] = dict()\n", "        if self.llh_name in _cached_functions:\n            raise RuntimeError('cached')\n        _cached_functions[self.llh_name] = dict()\n"),
    ("ok", P, "                    if items.default == new_items.default:\n                        continue\n                    else:\n", "                    if items.default != new_items.default:\n"),
    ("ok", F, "            for config in result.values():\n                if config.name in plugin_class.takes_config:\n                    raise RuntimeError(f\"Attempt to specify config {config.name} twice\")\n",
     "            for name in result:\n                if name in plugin_class.takes_config:\n                    raise RuntimeError(f\"Attempt to specify config {name} twice\")\n"),
    ("ok", F, "            for config in result.values():\n                if config.name in plugin_class.takes_config:\n                    raise RuntimeError(f\"Attempt to specify config {config.name} twice\")\n",
     "            if any(name in plugin_class.takes_config for name in result):\n                raise RuntimeError(f\"Attempt to specify config twice\")\n"),
]
