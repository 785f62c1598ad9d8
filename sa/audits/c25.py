L, X, F = "appletree/likelihood.py", "appletree/context.py", "appletree/profiler.py"
DEC = "    @need_replacing_alias\n"
RB = '''            bound.arguments["parameters"] = self.replace_alias(bound.arguments["parameters"])
        else:'''
RA = '''        _parameters = deepcopy(parameters)
        for k, v in self._parameter_alias.items():
            if k in _parameters:
                _parameters[v] = _parameters.pop(k)
        return _parameters
'''
NEED = '''            if v in self.needed_parameters:
                self.needed_parameters.add(k)
                self.needed_parameters.remove(v)
'''
ENTRIES = [
    # every caller is decorated itself
    ("ok", L, DEC + "    def _simulate_model_hist", "    def _simulate_model_hist"),
    ("bad", L, DEC + "    def simulate_weighted_data", "    def simulate_weighted_data"),
    ("bad", L, RB, RB.replace('self.replace_alias(bound.arguments["parameters"])', 'deepcopy(bound.arguments["parameters"])')),
    ("bad", L, RB, RB.replace('bound.arguments["parameters"] = ', '_ = ')),
    ("bad", L, "return func(*bound.args, **bound.kwargs)", "return func(self, *args, **kwargs)"),
    ("bad", L, RA, RA.replace("_parameters.pop(k)", "_parameters[k]")),
    ("bad", L, RA, RA.replace("_parameters[v] = _parameters.pop(k)", "_parameters[k] = _parameters.pop(v)")),
    ("bad", L, RA, RA.replace("_parameters[v] = _parameters.pop(k)", "_parameters.pop(k)")),
    ("bad", L, RA, RA.replace("if k in", "if k not in")),
    ("bad", L, RA, RA.replace("deepcopy(parameters)", "{}")),
    ("bad", L, RA, "        return deepcopy(parameters)\n"),
    ("bad", L, NEED, NEED.replace("add(k)", "add(v)").replace("remove(v)", "remove(k)")),
    ("bad", L, NEED, NEED.replace("if v in", "if k in")),
    ("bad", L, NEED, "            pass\n"),
    ("bad", X, "            likelihood.replace_alias(parameters),\n", "            parameters,\n"),
    ("bad", F, "    results = {}\n\n    for llh_name, likelihood in context.likelihoods.items():\n        parameters_component = likelihood.replace_alias(parameters)",
     "    results = {}\n\n    for llh_name, likelihood in context.likelihoods.items():\n        parameters_component = dict(parameters)"),
    ("bad", L, "                key, _hist = component.simulate_hist(key, batch_size, parameters)",
     "                key, _hist = component.simulate_hist(key, batch_size, self._raw)"),
    ("ok", L, DEC + '    def _simulate_model_hist(self, key, batch_size, parameters):\n',
     '    def _simulate_model_hist(self, key, batch_size, parameters):\n        parameters = self.replace_alias(parameters)\n'),
    ("ok", L, RB, RB.replace('bound.arguments["parameters"] = self.replace_alias(bound.arguments["parameters"])',
                             'pars = bound.arguments["parameters"]\n            bound.arguments["parameters"] = self.replace_alias(pars)')),
    ("ok", L, RA, RA.replace("_parameters[v] = _parameters.pop(k)", "value = _parameters.pop(k)\n                _parameters[v] = value")),
    ("ok", L, RA, RA.replace("_parameters[v] = _parameters.pop(k)", "_parameters[v] = _parameters[k]\n                del _parameters[k]")),
    ("ok", L, RA, RA.replace("if k in _parameters:\n", "if k not in _parameters:\n                continue\n            else:\n")),
    ("ok", L, RA, RA.replace("deepcopy(parameters)", "dict(parameters)")),
    ("ok", L, NEED, NEED.replace("remove(v)", "discard(v)")),
    ("ok", L, NEED, '''            if v not in self.needed_parameters:
                continue
            self.needed_parameters.remove(v)
            self.needed_parameters.add(k)
'''),
    ("ok", L, NEED, "            self._rename_needed(k, v)\n\n    def _rename_needed(self, k, v):\n        " + NEED.strip().replace("\n    ", "\n") + "\n"),
    ("ok", X, '''        key, result = likelihood[component_name].simulate(
            key,
            batch_size,
            likelihood.replace_alias(parameters),
        )
''', '''        replaced = likelihood.replace_alias(parameters)
        component = likelihood[component_name]
        key, result = component.simulate(key, batch_size, parameters=replaced)
'''),
    ("ok", L, '''        hist = np.zeros_like(self.data_hist)
        for component_name, component in self.components.items():
            if isinstance(component, ComponentSim):
                key, _hist = component.simulate_hist(key, batch_size, parameters)
''', '''        hist = np.zeros_like(self.data_hist)
        for component_name in self.components:
            component = self.components[component_name]
            if isinstance(component, ComponentSim):
                key, _hist = component.simulate_hist(key, batch_size, parameters)
'''),
    ("ok", L, DEC + '    def _simulate_model_hist(self, key, batch_size, parameters):\n',
     DEC + '''    def _simulate_model_hist(self, key, batch_size, parameters):
        return self._sum_hists(key, batch_size, parameters)

    def _sum_hists(self, key, batch_size, parameters):
'''),
]
