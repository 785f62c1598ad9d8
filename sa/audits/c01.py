R = "appletree/randgen.py"
D = "appletree/plugins/detector.py"
N = "appletree/plugins/nestv2.py"
E = "appletree/plugins/er_microphys.py"
M = "appletree/plugins/common.py"
B = "appletree/plugins/reconstruction.py"
C = "appletree/component.py"
L = "appletree/likelihood.py"
X = "appletree/context.py"
SKEW = "    key, seed = random.split(key)\n    rvs0 = random.normal(seed, shape=shape)\n    key, seed = random.split(key)\n    rvs1 = random.normal(seed, shape=shape)\n"
GP = "        key, offspring = poisson(args[0], eta * args[1])\n        population = args[2] + offspring\n        return key, offspring, population\n"
HYB = "    key, key_cf, key_bernoulli = random.split(key, 3)\n"
S2 = "        key, num_s2_phd = randgen.poisson(key, mean_s2_phd)\n        key, num_dpe = randgen.binomial(key, parameters[\"p_dpe\"], num_s2_phd)\n"
POS = "        key, r2 = randgen.uniform(key, 0, self.r_max.value**2, shape=(batch_size,))\n        key, theta = randgen.uniform(key, 0, 2 * jnp.pi, shape=(batch_size,))\n"
XY = "        key, delta_x = randgen.normal(key, mean, std)\n        key, delta_y = randgen.normal(key, mean, std)\n"
ENTRIES = [
    ("bad", R, SKEW, SKEW.replace("    key, seed = random.split(key)\n    rvs1", "    rvs1")),
    ("bad", R, SKEW, SKEW.replace("rvs1 = random.normal(seed", "rvs1 = random.normal(key")),
    ("bad", R, SKEW, "    rvs0, rvs1 = [random.normal(key, shape=shape) for _ in range(2)]\n"),
    ("bad", R, "    key, seed = random.split(key)\n\n    shape = shape or jnp.shape(lam)\n", "    _, seed = random.split(key)\n\n    shape = shape or jnp.shape(lam)\n"),
    ("bad", R, "    rvs = random.poisson(seed, lam, shape=shape)\n    return key, rvs.astype(INT)\n", "    rvs = random.poisson(seed, lam, shape=shape)\n    return seed, rvs.astype(INT)\n"),
    ("bad", R, "    rvs = random.poisson(seed, lam, shape=shape)\n", "    rvs = random.poisson(key, lam, shape=shape)\n"),
    ("bad", R, "    rvs = random.poisson(seed, lam, shape=shape)\n", "    rvs = random.poisson(random.PRNGKey(0), lam, shape=shape)\n"),
    ("bad", R, "    rvs = random.poisson(seed, lam, shape=shape)\n    return key, rvs.astype(INT)\n", "    rvs = random.poisson(seed, lam, shape=shape)\n    return random.PRNGKey(0), rvs.astype(INT)\n"),
    ("bad", R, GP, GP.replace("key, offspring = ", "_, offspring = ").replace("return key, offspring", "return args[0], offspring")),
    ("bad", R, "    key, population = poisson(key, lam * (1 - eta), shape)\n", "    _, population = poisson(key, lam * (1 - eta), shape)\n"),
    ("bad", R, "    key, lam = gamma(key, n, p / (1 - p), shape)\n", "    _, lam = gamma(key, n, p / (1 - p), shape)\n"),
    ("bad", R, HYB, "    key, key_cf = random.split(key)\n    key_bernoulli = key_cf\n"),
    ("bad", R, HYB, "    key, key_cf = random.split(key)\n    key_bernoulli = key\n"),
    ("bad", R, HYB, "    key_cf, key_bernoulli = random.split(key)\n"),
    ("bad", D, S2, S2.replace("key, num_s2_phd = ", "_, num_s2_phd = ")),
    ("bad", D, S2, "        num_s2_phd = randgen.poisson(key, mean_s2_phd)[1]\n        key, num_dpe = randgen.binomial(key, parameters[\"p_dpe\"], num_s2_phd)\n"),
    ("bad", D, S2, S2.replace("key, num_dpe = randgen.binomial(key,", "_, num_dpe = randgen.binomial(key,")),
    ("bad", D, S2, S2.replace("key, num_dpe = randgen.binomial(key,", "_, num_dpe = randgen.binomial(randgen.get_key(),")),
    ("bad", D, S2, S2.replace("randgen.binomial(key,", "randgen.binomial(randgen.get_key(3),")),
    ("bad", M, POS, "        _, r2 = randgen.uniform(key, 0, self.r_max.value**2, shape=(batch_size,))\n        key, theta = randgen.uniform(key, 0, 2 * jnp.pi, shape=(batch_size,))\n"),
    ("bad", B, XY, "        new_key, delta_x = randgen.normal(key, mean, std)\n        key, delta_y = randgen.normal(key, mean, std)\n"),
    ("bad", B, XY, "        draw = lambda: randgen.normal(key, mean, std)[1]\n        delta_x, delta_y = draw(), draw()\n        key, _ = randgen.normal(key, mean, std)\n"),
    ("bad", E, "        key, num_electron = randgen.binomial(key, p_not_recomb, num_ion)\n", "        num_electron = randgen.binomial(key, p_not_recomb, num_ion)[1]\n"),
    ("bad", C, "            key, results = self.simulate(key, batch_size, parameters)\n            if apply_eff", "            _, results = self.simulate(key, batch_size, parameters)\n            if apply_eff"),
    ("bad", C, "        key, result = self.simulate(key, batch_size, parameters)\n        ", "        _, result = self.simulate(key, batch_size, parameters)\n        "),
    ("bad", L, "                key, _hist = component.simulate_hist(key, batch_size, parameters)\n", "                _, _hist = component.simulate_hist(key, batch_size, parameters)\n"),
    ("bad", L, "                key, _result = component.simulate_weighted_data(key, batch_size, parameters)\n", "                _result = component.simulate_weighted_data(key, batch_size, parameters)[1]\n"),
    ("bad", L, "        key, model_hist = self._simulate_model_hist(key, batch_size, parameters)\n", "        _, model_hist = self._simulate_model_hist(key, batch_size, parameters)\n"),
    ("bad", X, "                key, log_likelihood_i = likelihood.get_log_likelihood(\n", "                _, log_likelihood_i = likelihood.get_log_likelihood(\n"),
    ("bad", C, "        key, result = self.simulate(key, batch_size, parameters)\n        # Move data", "        new, result = self.simulate(key, batch_size, parameters)\n        # Move data"),
    # ok
    ("ok", R, SKEW, "    key, seed0, seed1 = random.split(key, 3)\n    rvs0 = random.normal(seed0, shape=shape)\n    rvs1 = random.normal(seed1, shape=shape)\n"),
    ("ok", R, SKEW, "    keys = random.split(key, 3)\n    key = keys[0]\n    rvs0 = random.normal(keys[1], shape=shape)\n    rvs1 = random.normal(keys[2], shape=shape)\n"),
    ("ok", R, SKEW, "    key, rvs0 = normal(key, 0.0, 1.0, shape)\n    key, rvs1 = normal(key, 0.0, 1.0, shape)\n"),
    ("ok", R, GP, "        key, total, current = args[0], args[2], args[1]\n        next_key, offspring = poisson(key, eta * current)\n        return next_key, offspring, total + offspring\n"),
    ("ok", R, HYB, "    keys = random.split(key, 3)\n    key, key_cf, key_bernoulli = keys\n"),
    ("ok", R, HYB, "    key, rest = random.split(key)\n    key_cf, key_bernoulli = random.split(rest)\n"),
    ("ok", D, S2, "        out = randgen.poisson(key, mean_s2_phd)\n        num_s2_phd = out[1]\n        key, num_dpe = randgen.binomial(out[0], parameters[\"p_dpe\"], num_s2_phd)\n"),
    ("ok", B, XY, "        key, sub = random.split(key) if False else (key, None)\n".replace("        key, sub = random.split(key) if False else (key, None)\n", "") + "        deltas = []\n        for _ in range(2):\n            key, delta = randgen.normal(key, mean, std)\n            deltas.append(delta)\n        delta_x, delta_y = deltas\n"),
    ("ok", M, POS, "        key_r, r2 = randgen.uniform(key, 0, self.r_max.value**2, shape=(batch_size,))\n        key, theta = randgen.uniform(key_r, 0, 2 * jnp.pi, shape=(batch_size,))\n"),
    ("ok", L, "                key, _hist = component.simulate_hist(key, batch_size, parameters)\n", "                simulated = component.simulate_hist(key, batch_size, parameters)\n                key, _hist = simulated\n"),
    ("ok", C, "        key, result = self.simulate(key, batch_size, parameters)\n        ", "        output = self.simulate(key, batch_size, parameters)\n        key, result = output[0], output[1]\n        mc = result[:-1]"),
]
