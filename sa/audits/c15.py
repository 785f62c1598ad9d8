L, K = "appletree/likelihood.py", "appletree/component.py"
ADD = "            hist += _hist\n"
SH = "key, _hist = component.simulate_hist(key, batch_size, parameters)"
PDF = "normalization_factor = 1 / jnp.sum(hist) * parameters[self.rate_name]"
SIMN = "normalization_factor = 1 / batch_size * parameters[self.rate_name]"
NS = "normalization_factor = 1 / n_events_selected * parameters[self.rate_name]"
LOOP = "        for component_name, component in self.components.items():\n            if isinstance(component, ComponentSim):\n                key, _hist"
GN = "normalization_factor = self.get_normalization(hist, parameters, batch_size)\n        hist *= normalization_factor"
GW = "normalization_factor = self.get_normalization(hist, parameters, batch_size)\n        result[-1] *= normalization_factor"
FX = "normalization_factor = self.get_normalization(self.hist, parameters, len(self.data))\n        return self.hist * normalization_factor"
ENTRIES = [
    ("bad", L, ADD, "            hist = _hist\n"),
    ("bad", L, ADD, "            hist += 2 * _hist\n"),
    ("bad", L, ADD, "            hist -= _hist\n"),
    ("bad", L, ADD, "            hist *= _hist\n"),
    ("bad", L, ADD, "        hist += _hist\n"),
    ("bad", L, ADD, "            if component.norm_type == 'on_pdf':\n                hist += _hist\n"),
    ("bad", L, "hist = np.zeros_like(self.data_hist)", "hist = np.ones_like(self.data_hist)"),
    ("bad", L, LOOP, LOOP.replace("self.components.items()", "list(self.components.items())[1:]")),
    ("bad", L, SH, SH.replace("batch_size, par", "1000, par")),
    ("bad", L, SH, SH.replace("key, _hist", "_, _hist")),
    ("bad", L, "            result.append(_result)\n", "            result = [_result]\n"),
    ("bad", L, "            result.append(_result)\n", "            if isinstance(component, ComponentSim):\n                result.append(_result)\n"),
    ("bad", L, "np.hstack(result)", "np.vstack(result)"),
    ("bad", K, PDF, "normalization_factor = 1 / jnp.mean(hist) * parameters[self.rate_name]"),
    ("bad", K, PDF, "normalization_factor = 1 / batch_size * parameters[self.rate_name]"),
    ("bad", K, PDF, "normalization_factor = 1 / jnp.sum(hist)"),
    ("bad", K, PDF, "normalization_factor = jnp.sum(hist) / parameters[self.rate_name]"),
    ("bad", K, SIMN, "normalization_factor = 1 / jnp.sum(hist) * parameters[self.rate_name]"),
    ("bad", K, SIMN, "normalization_factor = batch_size * parameters[self.rate_name]"),
    ("bad", K, NS, SIMN),
    ("bad", K, GN, GN.replace("hist *=", "hist /=")),
    ("bad", K, GN, GN.replace("hist *=", "hist +=")),
    ("bad", K, GN, GN.replace("hist *= normalization_factor", "pass")),
    ("bad", K, GN, GN.replace("batch_size)", "len(eff) + 1)")),
    ("bad", K, GW, GW.replace("result[-1] *= ", "result[0] *= ")),
    ("bad", K, GW, GW.replace("result[-1] *= ", "result[-1] /= ")),
    ("bad", K, FX, FX.replace("return self.hist * normalization_factor", "return self.hist")),
    ("bad", K, FX, FX.replace("return self.hist * normalization_factor", "return self.hist * normalization_factor**2")),
    ("bad", K, "eff = result[-1]  # we", "eff = result[0]  # we"),
    ("bad", K, "eff = result[-1]  # we", "eff = jnp.ones(mc.shape[0])  # we"),
    ("bad", L, 'component.rate_name = component_name + "_rate"', 'component.rate_name = self.name + "_rate"'),
    ("bad", L, 'component.rate_name = component_name + "_rate"', 'component.rate_name = component.__class__.__name__ + "_rate"'),
    ("bad", L, "return model_hist.sum()", "return model_hist.mean()"),
    ("ok", L, ADD, "            hist = hist + _hist\n"),
    ("ok", L, LOOP, LOOP.replace("component_name, component in self.components.items()", "component in self.components.values()")),
    ("ok", L, LOOP, LOOP.replace("component_name, component in self.components.items()", "component_name in self.components").replace(
        "            if isi", "            component = self.components[component_name]\n            if isi")),
    ("ok", L, "hist = np.zeros_like(self.data_hist)", "hist = np.zeros(self.data_hist.shape)"),
    ("ok", L, SH, "key, _hist = component.simulate_hist(key=key, batch_size=batch_size, parameters=parameters)"),
    ("ok", L, SH, "out = component.simulate_hist(key, batch_size, parameters)\n                key = out[0]\n                _hist = out[1]"),
    ("ok", L, "result = list(r for r in np.hstack(result))", "result = [r for r in np.concatenate(result, axis=1)]"),
    ("ok", K, PDF, "normalization_factor = parameters[self.rate_name] / hist.sum()"),
    ("ok", K, PDF, "total = jnp.sum(hist)\n            normalization_factor = parameters[self.rate_name] / total"),
    ("ok", K, SIMN, "normalization_factor = parameters[self.rate_name] / batch_size"),
    ("ok", K, GN, "hist = hist * self.get_normalization(hist, parameters, batch_size)"),
    ("ok", K, GW, "result[-1] = result[-1] * self.get_normalization(hist, parameters, batch_size=batch_size)"),
    ("ok", K, FX, "factor = self.get_normalization(self.hist, parameters, len(self.data))\n        return factor * self.hist"),
    ("ok", L, 'component.rate_name = component_name + "_rate"', 'component.rate_name = f"{component_name}_rate"'),
    ("ok", L, "return model_hist.sum()", "return np.sum(model_hist)"),
]
