R = "appletree/plugins/reconstruction.py"
M = "appletree/plugins/er_microphys.py"
D = "appletree/plugins/detector.py"
E = "appletree/plugins/efficiency.py"
N = "appletree/plugins/nestv2.py"
V = "appletree/plugins/er_nestv2.py"
L = "appletree/plugins/lyqy.py"
O = "appletree/plugins/common.py"
P = "appletree/plugin.py"
ENTRIES = [
    ("bad", M, "return key, num_photon, num_electron", "return key, num_electron, num_photon"),
    ("bad", M, 'provides = ["num_photon", "num_electron"]', 'provides = ["num_electron", "num_photon"]'),
    ("bad", N, "return key, num_photon, num_electron", "return key, num_electron, num_photon"),
    ("bad", N, "return key, Ni, Nex, Nq", "return key, Nex, Ni, Nq"),
    ("bad", V, "return key, omega, Variance", "return key, Variance, omega"),
    ("bad", O, "return key, x, y, z", "return key, x, z, y"),
    ("bad", O, "return key, x, y, z", "return key, x, y"),
    ("bad", M, 'parameters = ("rf0", "rf1")', 'parameters = ("rf0",)'),
    ("bad", M, 'parameters = ("rf0", "rf1")', 'parameters = ("rf0", "rf1", "rf2")'),
    ("bad", D, 'parameters["elife_sigma"]', 'parameters["drift_velocity"]'),
    ("bad", D, 'parameters = ("drift_velocity", "elife_sigma")', 'parameters = ("drift_velocity",)'),
    ("bad", D, "self.elife.apply(p)", "self.elife_map.apply(p)"),
    ("bad", E, "* cut_acc_s1 * cut_acc_s2", "* cut_acc_s1 * cut_acc_s1"),
    ("bad", E, "acc_s2_threshold * acc_s1_recon_eff * cut_acc_s1 * cut_acc_s2", "acc_s1_recon_eff * cut_acc_s1 * cut_acc_s2"),
    ("bad", E, "self.s2_cut_acc.apply(s2_area, parameters)", "self.s1_cut_acc.apply(s2_area, parameters)"),
    ("bad", L, "self.qy_median.apply(energy)", "self.ly_median.apply(energy)"),
    ("bad", L, "def simulate(self, key, parameters, energy, light_yield):", "def simulate(self, key, parameters, light_yield, energy):"),
    ("bad", L, 'provides = ["light_yield"]', 'provides = ["light_yield", "energy_deposit"]'),
    ("bad", R, 'parameters["', 'parameters["not_"+"declared"] * parameters["'),
    ("bad", O, "self.z_max.value", "self.z_maximum.value"),
    ("bad", O, "self.mono_energy.value", "self.mono_energy"),
    ("bad", P, "            if arguments[i] != depend:\n", "            if depend not in arguments:\n"),
    ("bad", P, "        self.sanity_check()\n", ""),
    ("bad", P, "start=3):", "start=4):"),
    ("bad", P, "self.depends_on, start=3):", "self.depends_on[:1], start=3):"),
    ("ok", M, "return key, num_photon, num_electron", "res = (key, num_photon, num_electron)\n        return res"),
    ("ok", M, "        num_photon = num_quanta - num_electron\n        return key, num_photon, num_electron",
     "        n_el = num_electron\n        n_ph = num_quanta - n_el\n        return key, n_ph, n_el"),
    ("ok", M, "        num_photon = num_quanta - num_electron\n        return key, num_photon, num_electron",
     "        return self._split(key, num_quanta, num_electron)\n\n    def _split(self, key, num_quanta, num_electron):\n"
     "        num_photon = num_quanta - num_electron\n        return key, num_photon, num_electron"),
    ("ok", D, 'lifetime = self.elife.apply(p) * (1 + parameters["elife_sigma"])',
     'scale = parameters["elife_sigma"]\n        elife = self.elife\n        lifetime = elife.apply(p) * (1 + scale)'),
    ("ok", E, "acc_s2_threshold * acc_s1_recon_eff * cut_acc_s1 * cut_acc_s2", "cut_acc_s1 * (cut_acc_s2 * acc_s1_recon_eff) * acc_s2_threshold"),
    ("ok", E, 'return key, jnp.where(s2_area > parameters["s2_threshold"], 1.0, 0)',
     'thr = parameters.get("s2_threshold")\n        return key, jnp.where(s2_area > thr, 1.0, 0)'),
    ("ok", E, "eff = acc_s2_threshold * acc_s1_recon_eff * cut_acc_s1 * cut_acc_s2",
     "eff = 1.0\n        for acc in (acc_s2_threshold, acc_s1_recon_eff, cut_acc_s1, cut_acc_s2):\n            eff = eff * acc"),
    ("ok", M, 'parameters = ("rf0", "rf1")', '_pars = ("rf0",)\n    parameters = _pars + ("rf1",)'),
    ("ok", P, "        for i, depend in enumerate(self.depends_on, start=3):\n            if arguments[i] != depend:",
     "        for i, depend in enumerate(self.depends_on):\n            i = i + 3\n            if not arguments[i] == depend:"),
    ("ok", P, "        for i, depend in enumerate(self.depends_on, start=3):\n            if arguments[i] != depend:",
     "        for i, depend in zip(range(3, 3 + len(self.depends_on)), self.depends_on):\n            if arguments[i] != depend:"),
    ("ok", O, "        x = r * jnp.cos(theta)\n        y = r * jnp.sin(theta)\n        return key, x, y, z",
     "        cos, sin = jnp.cos(theta), jnp.sin(theta)\n        return key, r * cos, r * sin, z"),
]
