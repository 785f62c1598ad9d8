E = "appletree/plugins/er_microphys.py"
V = "appletree/plugins/er_nestv2.py"
N = "appletree/plugins/nestv2.py"
ENTRIES = [
    ("bad", E, "            ti / 2.0 - ti * ti / 3.0,\n", "            ti / 2.0 - ti * ti / 6.0,\n"),
    ("bad", E, '-(energy - parameters["py3"])', '(energy - parameters["py3"])'),
    ("bad", V, "energy * 0.05", "energy * 0.5"),
    ("bad", V, "        Variance = recombProb * (1.0 - recombProb) * Ni + omega * omega * Ni * Ni\n", "        Variance = recombProb * (1.0 - recombProb) * Ni + omega * omega * Ni\n"),
    ("bad", N, "        mask = energy_center >= ", "        mask = energy_center <= "),
    ("bad", E, "            1.0 - jnp.log(1.0 + ti) / ti,\n", "            1.0 - jnp.log(ti) / ti,\n"),
    ("bad", E, "            / 4.0\n", ""),
    ("bad", E, "jnp.clip(parameters[\"rf0\"] * fd_factor, 0, 1.0)", "parameters[\"rf0\"] * fd_factor"),
    ("bad", N, "(parameters[\"liquid_xe_density\"] / 2.9) ** 0.3", "(parameters[\"liquid_xe_density\"] / 2.9) ** 3"),
    ("bad", N, "jnp.sqrt(energy + parameters[\"epsilon\"])", "jnp.sqrt(energy) + parameters[\"epsilon\"]"),
    ("bad", N, "        light_yield *= 1 - 1 / (1 + (energy / parameters[\"theta\"]) ** parameters[\"iota\"])\n", "        light_yield *= 1 - 1 / (1 + (energy / parameters[\"theta\"])) ** parameters[\"iota\"]\n"),
    ("bad", N, "        light_yield = jnp.clip(light_yield, 0, jnp.inf)\n", ""),
    ("bad", N, "-0.5 * (elecFrac - parameters[\"xi\"]) ** 2.0 / (parameters[\"omega\"] ** 2)", "-((elecFrac - parameters[\"xi\"]) ** 2.0) / (parameters[\"omega\"] ** 2)"),
    ("bad", V, "        charge_yield_beta += -m5 /", "        charge_yield_beta += m5 /"),
    ("bad", V, "        m3 = jnp.log10(field)", "        m3 = jnp.log(field)"),
    ("bad", V, "(energy / m3) ** m4) ** m9", "(energy / m3) ** m9) ** m4"),
    ("bad", V, "            * jnp.power(DENSITY, -1.7)\n", ""),
    ("bad", V, "            (1.0 - sign) / 2.0 * (fano_nq_const", "            (1.0 + sign) / 2.0 * (fano_nq_const"),
    ("bad", V, "skew * wide / jnp.sqrt(1.0 + skew * skew)", "skew * wide / (1.0 + skew * skew)"),
    ("bad", V, "        recombProb = jnp.maximum(recombProb, 0.0)\n", ""),
    ("ok", V, "        sqrt2 = jnp.sqrt(2.0)\n", "        sqrt2 = 2.0**0.5\n"),
    ("ok", V, "(energy / m3) ** m4) ** m9", "jnp.power(energy / m3, m4)) ** m9"),
    ("ok", N, "        _Nq = parameters[\"alpha\"] * energy ** parameters[\"beta\"]\n", "        _Nq = parameters[\"alpha\"] * jnp.exp(parameters[\"beta\"] * jnp.log(energy))\n"),
    ("ok", N, "        charge_yield *= 1 - 1 / (1 + (energy / parameters[\"zeta\"]) ** parameters[\"eta\"])\n", "        x = (energy / parameters[\"zeta\"]) ** parameters[\"eta\"]\n        charge_yield *= x / (1 + x)\n"),
    ("ok", E, "            ti < 1e-2,\n            ti / 2.0 - ti * ti / 3.0,\n            1.0 - jnp.log(1.0 + ti) / ti,\n", "            ti >= 1e-2,\n            1.0 - jnp.log1p(ti) / ti,\n            ti * (0.5 - ti / 3.0),\n"),
]
