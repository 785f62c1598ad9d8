U = "appletree/utils.py"
S = "appletree/share.py"
F = "appletree/config.py"
X = "appletree/context.py"
L = "appletree/likelihood.py"
P = "appletree/component.py"
G = "appletree/plugin.py"
T = "appletree/plot.py"
B = '''        for config in self.takes_config.values():
            config.build(self.llh_name)

        self.sanity_check()

        # Do not set configurations as static! This is very important!!!
        for config in self.takes_config.values():
            setattr(self, config.name, deepcopy(config))
'''
NP = """        self.needed_parameters: Set[str] = set()

        if "bins" in kwargs.keys() and "bins_type" in kwargs.keys():
            self.set_binning(**kwargs)

    def set_binning("""
ENTRIES = [
    ("bad", G, "deepcopy(config))", "config)"),
    ("bad", G, "            config.build(self.llh_name)\n", "            config.build()\n"),
    ("bad", G, "            config.build(self.llh_name)\n", "            config.build(self.__class__.__name__)\n"),
    ("bad", G, B, '''        for config in self.takes_config.values():
            setattr(self, config.name, deepcopy(config))
        self.sanity_check()
        for config in self.takes_config.values():
            config.build(self.llh_name)
'''),
    ("bad", G, B, '''        for config in self.takes_config.values():
            config.build(self.llh_name)
            if not hasattr(self, config.name):
                setattr(self, config.name, deepcopy(config))
            else:
                setattr(self, config.name, config)
        self.sanity_check()
'''),
    ("bad", G, "            setattr(self, config.name, deepcopy(config))\n", "            setattr(self.__class__, config.name, deepcopy(config))\n"),
    ("bad", G, "[getattr(self, v.name).lineage for v in", "[v.lineage for v in"),
    ("bad", G, "[getattr(self, v.name).lineage for v in", "[self.takes_config[v.name].lineage for v in"),
    ("bad", G, "        self.llh_name = llh_name\n", "        self.llh_name = self.__class__.__name__\n"),
    ("bad", P, "config.required_parameter(self.llh_name)", "config.required_parameter()"),
    ("bad", P, "config.required_parameter(self.llh_name)", "config.required_parameter(self.name)"),
    ("bad", P, "('{self.llh_name}')\\n\"", "('{self.name}')\\n\""),
    ("bad", P, "('{self.llh_name}')\\n\"", "()\\n\""),
    ("bad", P, "[_cached_functions[self.llh_name][p].lineage for p in self.instances]", "[self._plugin_class_registry[p].takes_config.lineage for p in self.instances]"),
    ("bad", P, "[_cached_functions[self.llh_name][p].lineage for p in self.instances]", "[_cached_functions[self.name][p].lineage for p in self.instances]"),
    ("bad", P, "self._compile = partial(exec, self.code, _cached_functions[self.llh_name])", "self._compile = partial(exec, self.code, _cached_functions[self.name])"),
    ("bad", P, "self._compile = partial(exec, self.code, _cached_functions[self.llh_name])", "self._compile = partial(exec, self.code, _cached_functions)"),
    ("bad", P, "        self.simulate = _cached_functions[self.llh_name][self.func_name]", "        self.simulate = _cached_functions[self.name][self.func_name]"),
    ("bad", P, "            self.llh_name = llh_name\n", "            self.llh_name = name\n"),
    ("bad", P, "                name=self.name + \"_copy\",\n                llh_name=llh_name,\n            )\n        return", "                name=self.name + \"_copy\",\n                llh_name=self.llh_name,\n            )\n        return"),
    ("bad", P, "        self._plugin_class_registry = dict()\n\n    def register(", "        pass\n\n    _plugin_class_registry: dict = dict()\n\n    def register("),
    ("bad", P, NP, "        if \"bins\" in kwargs.keys() and \"bins_type\" in kwargs.keys():\n            self.set_binning(**kwargs)\n\n    needed_parameters: Set[str] = set()\n\n    def set_binning("),
    ("bad", P, "        dependencies: Optional[List[Dict]] = None,", "        dependencies: List[Dict] = [],"),
    ("bad", T, "config = getattr(instance, name)", "config = plugin_class.takes_config[name]"),
    ("bad", T, "_cached_functions[component.llh_name][f\"{work[0]}_{component.name}\"]", "_cached_functions[list(_cached_functions)[0]][f\"{work[0]}_{component.name}\"]"),
    ("ok", G, B, '''        options = list(self.takes_config.values())
        for option in options:
            option.build(llh_name)
        self.sanity_check()
        for option in options:
            setattr(self, option.name, deepcopy(option))
'''),
    ("ok", G, B, '''        self.sanity_check()
        for config in self.takes_config.values():
            config.build(self.llh_name)
            setattr(self, config.name, deepcopy(config))
'''),
    ("ok", G, B, '''        self.sanity_check()
        for config in self.takes_config.values():
            own = deepcopy(config)
            own.build(self.llh_name)
            setattr(self, config.name, own)
'''),
    ("ok", G, '''            "takes_config": dict(
                zip(
                    self.takes_config.keys(),
                    # self's own (likelihood-specific) copy of the configs
                    [getattr(self, v.name).lineage for v in self.takes_config.values()],
                )
            ),
''', '''            "takes_config": {
                k: getattr(self, v.name).lineage for k, v in self.takes_config.items()
            },
'''),
    ("ok", P, '''            "instances": dict(
                zip(
                    self.instances,
                    [_cached_functions[self.llh_name][p].lineage for p in self.instances],
                )
            ),
''', '''            "instances": {
                p: _cached_functions[self.llh_name][p].lineage for p in self.instances
            },
'''),
    ("ok", P, "            for config in plugin.takes_config.values():\n                required_parameter = config.required_parameter(self.llh_name)\n", "            llh_name = self.llh_name\n            for config in plugin.takes_config.values():\n                required_parameter = config.required_parameter(llh_name=llh_name)\n"),
    ("ok", P, "        _cached_functions[self.llh_name] = dict()\n        self._compile = partial(exec, self.code, _cached_functions[self.llh_name])", "        namespace = dict()\n        _cached_functions[self.llh_name] = namespace\n        self._compile = partial(exec, self.code, namespace)"),
    ("ok", P, "        self._compile = partial(exec, self.code, _cached_functions[self.llh_name])", "        self._compile = lambda: exec(self.code, _cached_functions[self.llh_name])"),
    ("ok", P, "        if llh_name is None:\n            self.llh_name = self.__class__.__name__ + \"_llh\"\n        else:\n            self.llh_name = llh_name\n", "        self.llh_name = llh_name if llh_name is not None else self.__class__.__name__ + \"_llh\"\n"),
    ("ok", T, '''                for name in plugin_class.takes_config:
                    config = getattr(instance, name)
''', '''                for config in plugin_class.takes_config.values():
                    config = getattr(instance, config.name)
'''),
    ("ok", T, "                instance = _cached_functions[component.llh_name][f\"{work[0]}_{component.name}\"]\n", "                functions = _cached_functions[_llh_name]\n                instance = functions[f\"{work[0]}_{component.name}\"]\n"),
    ("ok", L, "        self.needed_parameters: Set[str] = set()\n", "        self.needed_parameters = set()\n"),
]
