E = "appletree/plugins/er_microphys.py"
V = "appletree/plugins/er_nestv2.py"
N = "appletree/plugins/nestv2.py"
D = "appletree/plugins/detector.py"
C = "appletree/plugins/reconstruction.py"
F = "appletree/plugins/efficiency.py"
L = "appletree/plugins/lyqy.py"
P = "appletree/plugins/common.py"
ENTRIES = [
    ("bad", E, 'num_quanta_mean = energy / parameters["w"]', 'num_quanta_mean = energy / parameters["w"] / (1 + parameters["fano"])'),
    ("bad", E, 'jnp.sqrt(num_quanta_mean * parameters["fano"])', 'num_quanta_mean * parameters["fano"]'),
    ("bad", E, 'p_ion = 1.0 / (1.0 + parameters["nex_ni_ratio"])', 'p_ion = 1.0 - parameters["nex_ni_ratio"]'),
    ("bad", E, "        num_photon = num_quanta - num_electron\n", "        num_photon = num_quanta - num_ion + recomb * num_ion\n"),
    ("bad", E, "randgen.binomial(key, p_not_recomb, num_ion)", "randgen.binomial(key, p_not_recomb, num_quanta)"),
    ("bad", E, "        p_not_recomb = 1.0 - recomb\n", "        p_not_recomb = recomb\n"),
    ("bad", E, "        return key, num_photon, num_electron", "        return key, num_electron, num_photon"),
    ("bad", E, "randgen.truncate_normal(key, recomb_mean, recomb_std,", "randgen.truncate_normal(key, recomb_mean, recomb_std**2,"),
    ("bad", D, '* s1_lce / (1.0 + parameters["p_dpe"]), 0, 1.0)', '* s1_lce, 0, 1.0)'),
    ("bad", D, '        num_s1_pe = num_s1_dpe + num_s1_phd\n', '        num_s1_pe = 2 * num_s1_dpe + num_s1_phd\n'),
    ("bad", D, 'randgen.binomial(key, parameters["p_dpe"], num_s1_phd)', 'randgen.poisson(key, parameters["p_dpe"] * num_s1_phd)'),
    ("bad", D, '* (1 + parameters["elife_sigma"])', '* (1 - parameters["elife_sigma"])'),
    ("bad", D, '-jnp.abs(z) / parameters["drift_velocity"] / lifetime', '-jnp.abs(z) * parameters["drift_velocity"] / lifetime'),
    ("bad", D, '        gas_gain = parameters["gas_gain"] * gas_gain_relative * s2_lce\n', '        gas_gain = parameters["gas_gain"] * s2_lce\n'),
    ("bad", D, '        phd_gain = gas_gain / (1.0 + parameters["p_dpe"])\n', '        phd_gain = gas_gain * (1.0 - parameters["p_dpe"])\n'),
    ("bad", D, '        return key, (num_s2_phd + num_dpe).astype(randgen.FLOAT)', '        return key, (num_s2_phd * (1.0 + parameters["p_dpe"])).astype(randgen.FLOAT)'),
    ("bad", D, "        pos_true = jnp.stack([x, y, z]).T\n", "        pos_true = jnp.stack([y, x, z]).T\n"),
    ("bad", C, "        std /= jnp.sqrt(2)\n", ""),
    ("bad", C, "        rec_y = y + delta_y\n", "        rec_y = y + delta_x\n"),
    ("bad", C, "        s1_area = num_s1_pe * (1.0 + bias)\n", "        s1_area = num_s1_pe * (1.0 - bias)\n"),
    ("bad", C, "        std = self.s2_smear.apply(num_s2_pe)\n", "        std = self.s2_smear.apply(num_s2_pe) * mean\n"),
    ("bad", C, "        cs2 = s2_area / s2_correction / drift_survive_prob\n", "        cs2 = s2_area / s2_correction * drift_survive_prob\n"),
    ("bad", C, "        cs1 = s1_area / s1_correction\n", "        cs1 = s1_area * s1_correction\n"),
    ("bad", F, "acc_s2_threshold * acc_s1_recon_eff * cut_acc_s1 * cut_acc_s2", "acc_s2_threshold * acc_s1_recon_eff * cut_acc_s1 * cut_acc_s1"),
    ("bad", F, 's2_area > parameters["s2_threshold"]', 's2_area < parameters["s2_threshold"]'),
    ("bad", L, "randgen.poisson(key, charge_yield * energy)", "randgen.poisson(key, charge_yield)"),
    ("bad", L, '(1.0 + parameters["t_ly"])', '(1.0 + parameters["t_ly"]) ** 2'),
    ("bad", V, "        recombProb = 1.0 - (nex_ni_ratio + 1.0) * elecFrac\n", "        recombProb = 1.0 - nex_ni_ratio * elecFrac\n"),
    ("bad", V, "        Nex = Nq - Ni\n", "        Nex = Ni * (1.0 / alf - 1.0)\n"),
    ("bad", N, "        alf = 1.0 / (1.0 + nex_ni_ratio)\n", "        alf = nex_ni_ratio / (1.0 + nex_ni_ratio)\n"),
    ("bad", N, 'parameters["fano_nex"] * Nq_mean * nex_ni_ratio * alf', 'parameters["fano_nex"] * Nq_mean * alf'),
    ("bad", N, "            * 2.0\n", ""),
    ("bad", N, "            jnp.sqrt(Variance) / widthCorrection,\n        )\n        num", "            jnp.sqrt(Variance),\n        )\n        num"),
    ("bad", N, "        _Nq = _Nph + _Ne\n        alf", "        _Nq = _Nph - _Ne\n        alf"),
    ("bad", N, "        return key, jnp.where(mask, _Nph, 0.0), jnp.where(mask, _Ne, 0.0)\n", "        return key, jnp.where(mask, _Ne, 0.0), jnp.where(mask, _Nph, 0.0)\n"),
    ("ok", E, "        num_photon = num_quanta - num_electron\n", "        recombined = num_ion - num_electron\n        num_photon = (num_quanta - num_ion) + recombined\n"),
    ("ok", E, 'p_ion = 1.0 / (1.0 + parameters["nex_ni_ratio"])', 'r = parameters["nex_ni_ratio"]\n        p_ion = 1.0 - r / (1.0 + r)'),
    ("ok", D, '        num_s1_pe = num_s1_dpe + num_s1_phd\n', '        single = num_s1_phd - num_s1_dpe\n        num_s1_pe = single + 2 * num_s1_dpe\n'),
    ("ok", D, "        pos_true = jnp.stack([x, y, z]).T\n", "        pos_true = jnp.stack((x, y, z), axis=-1)\n"),
    ("ok", D, '-jnp.abs(z) / parameters["drift_velocity"] / lifetime', '-(jnp.abs(z) / parameters["drift_velocity"]) / lifetime'),
    ("ok", C, "        std /= jnp.sqrt(2)\n", "        std = std * 2**-0.5\n"),
    ("ok", C, "        cs2 = s2_area / s2_correction / drift_survive_prob\n", "        cs2 = s2_area / (s2_correction * drift_survive_prob)\n"),
    ("ok", V, "        Nex = Nq - Ni\n", "        Nex = -(Ni - Nq)\n"),
    ("ok", N, "            * 2.0\n            * (1.0 / (2.0 * jnp.pi) ** 0.5)\n", "            * jnp.sqrt(2.0 / jnp.pi)\n"),
]
