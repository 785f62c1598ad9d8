D, E_, M, N, ER, L, CM, RG = ("appletree/plugins/detector.py", "appletree/plugins/efficiency.py", "appletree/plugins/er_microphys.py",
    "appletree/plugins/nestv2.py", "appletree/plugins/er_nestv2.py", "appletree/plugins/lyqy.py", "appletree/plugins/common.py", "appletree/randgen.py")
ENTRIES = [
    ("bad", D, 'jnp.clip(parameters["g1"] * s1_lce / (1.0 + parameters["p_dpe"]), 0, 1.0)', 'parameters["g1"] * s1_lce * (1.0 + parameters["p_dpe"])'),
    ("bad", D, 'jnp.clip(parameters["g1"] * s1_lce / (1.0 + parameters["p_dpe"]), 0, 1.0)', 'jnp.clip(parameters["g1"] * s1_lce / (1.0 + parameters["p_dpe"]), 0, 1.0) * (1.0 + 2 * parameters["p_dpe"])'),
    ("bad", D, "-jnp.abs(z)", "-z"),
    ("bad", D, "randgen.binomial(key, drift_survive_prob, num_electron)", "randgen.binomial(key, 1.0 + drift_survive_prob, num_electron)"),
    ("bad", E_, "        acc_s1_recon_eff = jnp.clip(acc_s1_recon_eff, 0.0, 1.0)\n", ""),
    ("bad", E_, "cut_acc_s1 = jnp.clip(cut_acc_s1, 0.0, 1.0)", "cut_acc_s1 = jnp.clip(cut_acc_s1, 0.0)"),
    ("bad", E_, "cut_acc_s2 = jnp.clip(cut_acc_s2, 0.0, 1.0)", "cut_acc_s2 = jnp.minimum(cut_acc_s2, 1.0)"),
    ("bad", E_, "eff = acc_s2_threshold * acc_s1_recon_eff", "eff = acc_s2_threshold + acc_s1_recon_eff"),
    ("bad", E_, "1.0, 0)", "1.0, -1.0)"),
    ("bad", M, "vmin=0.0, vmax=1.0", "vmin=0.0"),
    ("bad", M, "vmin=0.0, vmax=1.0", "vmax=1.0"),
    ("bad", M, "num_quanta_std, vmin=0)", "num_quanta_std)"),
    ("bad", M, "num_photon = num_quanta - num_electron", "num_photon = num_ion - num_electron"),
    ("bad", M, "num_photon = num_quanta - num_electron", "num_photon = num_electron - num_quanta"),
    ("bad", M, "randgen.binomial(key, p_not_recomb, num_ion)", "randgen.poisson(key, p_not_recomb * num_ion)"),
    ("bad", M, 'p_ion = 1.0 / (1.0 + parameters["nex_ni_ratio"])', 'p_ion = 1.0 / parameters["nex_ni_ratio"]'),
    ("ok", N, "charge_yield = jnp.clip(charge_yield, 0, jnp.inf)", "charge_yield = charge_yield + 0.0"),
    ("bad", N, "        light_yield = jnp.clip(light_yield, 0, jnp.inf)\n", ""),
    ("bad", N, "num_electron = jnp.clip(num_electron.round().astype(int), 0, Ni)", "num_electron = jnp.maximum(num_electron.round().astype(int), 0)"),
    ("bad", N, "num_electron = jnp.clip(num_electron.round().astype(int), 0, Ni)", "num_electron = jnp.clip(num_electron.round().astype(int), 0, Nq)"),
    ("bad", N, "num_photon = jnp.maximum(Nq - num_electron, Nex)", "num_photon = jnp.maximum(Ni - num_electron, Nex)"),
    ("bad", N, "        Nq = Nex + Ni\n", "        Nq = Nq_mean.round().astype(int)\n"),
    ("bad", ER, "Ni = jnp.clip(Ni.round().astype(int), 0, Nq)", "Ni = jnp.clip(Nq - Nex + 1, 0, Nq)"),
    ("bad", ER, "        Nex = Nq - Ni\n", "        Nex = Nq_mean - Ni\n"),
    ("bad", ER, "num_photon = jnp.clip(Nq - num_electron, 0, jnp.inf)", "num_photon = jnp.clip(Nq - num_electron, 1, jnp.inf)"),
    ("bad", ER, "num_electron = jnp.clip(num_electron.round().astype(int), 0, Ni)", "num_electron = jnp.clip(num_electron.round().astype(int), 0, jnp.inf)"),
    ("bad", ER, "num_electron = jnp.clip(num_electron.round().astype(int), 0, Ni)", "num_electron = num_electron.round().astype(int)"),
    ("bad", ER, "light_yield = jnp.maximum(light_yield, 0.0)", "light_yield = light_yield * 1.0"),
    ("bad", ER, "charge_yield_beta = jnp.clip(charge_yield_beta, 0, jnp.inf)", "charge_yield_beta = 1.0 * charge_yield_beta"),
    ("bad", ER, "alf = 1.0 / (1.0 + nex_ni_ratio)", "alf = 1.0 / (1.0 - nex_ni_ratio)"),
    ("bad", L, "        light_yield = jnp.clip(light_yield, 0, jnp.inf)\n", ""),
    ("bad", L, "charge_yield = jnp.clip(charge_yield, 0, jnp.inf)", "charge_yield = jnp.abs(charge_yield) - 0.1"),
    ("bad", RG, "    x_cf = jnp.clip(x_cf, 0.0, n)\n", ""),
    ("bad", RG, "x_cf = jnp.clip(x_cf, 0.0, n)", "x_cf = jnp.clip(x_cf, 0.0)"),
    ("bad", RG, "x_cf = jnp.where(flip, n - x_cf, x_cf)", "x_cf = jnp.where(flip, n + x_cf, x_cf)"),
    ("bad", RG, "    x = jnp.where(p >= 1.0, n, x)\n", "    x = jnp.where(p >= 1.0, n + 1, x)\n"),
    ("bad", RG, "    rvs = jnp.clip(rvs, vmin, vmax)\n", ""),
    ("bad", RG, "    rvs = jnp.clip(rvs, vmin, vmax)\n", "    rvs = jnp.maximum(rvs, vmin)\n"),
    # rewrites
    ("ok", E_, "cut_acc_s1 = jnp.clip(cut_acc_s1, 0.0, 1.0)", "cut_acc_s1 = jnp.minimum(jnp.maximum(cut_acc_s1, 0.0), 1.0)"),
    ("ok", E_, "cut_acc_s2 = jnp.clip(cut_acc_s2, 0.0, 1.0)", "cut_acc_s2 = jnp.where(cut_acc_s2 > 1.0, 1.0, jnp.where(cut_acc_s2 < 0.0, 0.0, cut_acc_s2))"),
    ("ok", E_, "        acc_s1_recon_eff = jnp.clip(acc_s1_recon_eff, 0.0, 1.0)\n        return key, acc_s1_recon_eff", "        return key, acc_s1_recon_eff.clip(0.0, 1.0)"),
    ("ok", D, "-jnp.abs(z)", "-jnp.sqrt(z**2)"),
    ("ok", D, "-jnp.abs(z)", "-jnp.maximum(z, -z)"),
    ("ok", D, 'num_s1_pe = num_s1_dpe + num_s1_phd', 'num_s1_pe = jnp.add(num_s1_phd, num_s1_dpe)'),
    ("ok", M, "num_photon = num_quanta - num_electron", "num_photon = (num_quanta - num_ion) + (num_ion - num_electron)"),
    ("ok", M, 'p_ion = 1.0 / (1.0 + parameters["nex_ni_ratio"])', 'ratio = parameters["nex_ni_ratio"]\n        p_ion = 1.0 - ratio / (1.0 + ratio)'),
    ("ok", N, "num_photon = jnp.maximum(Nq - num_electron, Nex)", "num_photon = Nq - num_electron"),
    ("ok", N, "num_electron = jnp.clip(num_electron.round().astype(int), 0, Ni)", "num_electron = jnp.minimum(jnp.maximum(jnp.round(num_electron).astype(int), 0), Ni)"),
    ("ok", N, "num_photon = jnp.maximum(Nq - num_electron, Nex)", "num_photon = Nex + (Ni - num_electron)"),
    ("ok", ER, "num_photon = jnp.clip(Nq - num_electron, 0, jnp.inf)", "num_photon = Nq - num_electron"),
    ("ok", ER, "        Nex = jnp.clip(Nex.round().astype(int), 0, Nq)\n        Ni = jnp.clip(Ni.round().astype(int), 0, Nq)\n", "        Nex = Nex.astype(int)\n        Ni = Ni.astype(int)\n"),
    ("ok", ER, "charge_yield_beta = jnp.clip(charge_yield_beta, 0, jnp.inf)", "charge_yield_beta = jnp.maximum(0.0, charge_yield_beta)"),
    ("ok", L, "charge_yield = jnp.clip(charge_yield, 0, jnp.inf)", "charge_yield = jnp.where(charge_yield > 0, charge_yield, 0.0)"),
    ("ok", RG, "x_cf = jnp.clip(x_cf, 0.0, n)", "x_cf = jnp.minimum(jnp.maximum(x_cf, 0.0), n)"),
    ("ok", RG, "    x_cf = jnp.clip(x_cf, 0.0, n)\n\n    # Flip back if we used symmetry reduction\n    x_cf = jnp.where(flip, n - x_cf, x_cf)", "    x_cf = jnp.where(flip, n - jnp.clip(x_cf, 0.0, n), jnp.clip(x_cf, 0.0, n))"),
    ("ok", RG, "    rvs = jnp.clip(rvs, vmin, vmax)\n", "    rvs = jnp.minimum(jnp.maximum(rvs, vmin), vmax) if vmin is not None and vmax is not None else jnp.clip(rvs, vmin, vmax)\n"),
]
