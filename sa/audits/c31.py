R = "appletree/randgen.py"
U = "appletree/utils.py"
UNI = "    rvs = random.uniform(seed, shape, minval=vmin, maxval=vmax)\n"
GAM = "    rvs = random.gamma(seed, alpha, shape=shape) / beta\n"
NOR = "    rvs = random.normal(seed, shape=shape) * std + mean\n"
SK = "    rvs = (a * jnp.abs(rvs0) + rvs1) / jnp.sqrt(1 + a**2)\n"
SK2 = "    rvs = rvs * scale + loc\n"
NB = "    key, lam = gamma(key, n, p / (1 - p), shape)\n"
G0 = "    key, population = poisson(key, lam * (1 - eta), shape)\n"
BODY = "        key, offspring = poisson(args[0], eta * args[1])\n        population = args[2] + offspring\n"
HM = "    mask = trial_idx < n_flat[:, None]\n"
HS = "    successes = (uniforms < p_flat[:, None]) & mask\n"
HX = "    x = jnp.where(n <= threshold, x_bernoulli, x_cf)\n"
TP = "            x < mu, -((x - mu) ** 2) / sigma_neg**2 / 2, -((x - mu) ** 2) / sigma_pos**2 / 2\n"
TR = '''        use_pos_half = np.random.uniform(size=size) < pos_half_prob
        use_neg_half = ~use_pos_half

        n_sigma = np.abs(np.random.normal(size=size))
        offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
'''
ER = "            x[0] / (x[0] + x[1]) * (1 - erf(errors[0] / x[0] / np.sqrt(2))) - p / 2,\n"
ENTRIES = [
    ("bad", R, UNI, "    rvs = random.uniform(seed, shape, minval=0.0, maxval=vmax) + vmin\n"),
    ("bad", R, GAM, "    rvs = random.gamma(seed, alpha, shape=shape) * beta\n"),
    ("bad", R, GAM, "    rvs = random.gamma(seed, beta, shape=shape) / alpha\n"),
    ("bad", R, NOR, "    rvs = random.normal(seed, shape=shape) * std**2 + mean\n"),
    ("bad", R, NOR, "    rvs = random.normal(seed) * std + mean\n"),
    ("bad", R, NOR, "    rvs = random.truncated_normal(seed, -3.0, 3.0, shape=shape) * std + mean\n"),
    ("ok", R, NOR, "    rvs = random.normal(seed, shape=jnp.shape(mean)) * std + mean\n"),
    ("bad", R, "    shape = shape or jnp.broadcast_shapes(jnp.shape(mean), jnp.shape(std))\n    mean =", "    shape = shape or jnp.shape(mean)\n    mean ="),
    ("bad", R, "    rvs = jnp.clip(rvs, vmin, vmax)\n", "    rvs = jnp.where(rvs < vmin, vmax, rvs) if vmin is not None else rvs\n"),
    ("bad", R, SK, "    rvs = (a * jnp.abs(rvs0) + rvs1) / jnp.sqrt(1 + a)\n"),
    ("bad", R, SK, "    rvs = (a * rvs0 + rvs1) / jnp.sqrt(1 + a**2)\n"),
    ("bad", R, SK, "    rvs = (a * jnp.abs(rvs0) + jnp.abs(rvs1)) / jnp.sqrt(1 + a**2)\n"),
    ("bad", R, SK2, "    rvs = (rvs + loc) * scale\n"),
    ("bad", R, NB, "    key, lam = gamma(key, n, (1 - p) / p, shape)\n"),
    ("bad", R, NB, "    key, lam = gamma(key, n, p, shape)\n"),
    ("bad", R, G0, "    key, population = poisson(key, lam, shape)\n"),
    ("bad", R, BODY, "        key, offspring = poisson(args[0], eta * args[2])\n        population = args[2] + offspring\n"),
    ("bad", R, BODY, "        key, offspring = poisson(args[0], eta * args[1])\n        population = offspring\n"),
    ("bad", R, BODY, "        key, offspring = poisson(args[0], (1 - eta) * args[1])\n        population = args[2] + offspring\n"),
    ("bad", R, "        return jnp.any(args[1] > 0)\n", "        return jnp.all(args[1] > 0)\n"),
    ("bad", R, "        return jnp.any(args[1] > 0)\n", "        return jnp.any(args[1] > 1)\n"),
    ("bad", R, HM, "    mask = trial_idx <= n_flat[:, None]\n"),
    ("bad", R, HS, "    successes = (uniforms > p_flat[:, None]) & mask\n"),
    ("bad", R, HX, "    x = jnp.where(n <= 2 * threshold, x_bernoulli, x_cf)\n"),
    ("bad", R, "    x = jnp.where(p >= 1.0, n, x)\n", "    x = jnp.where(p >= 1.0, 0.0, x)\n"),
    ("bad", R, "    x_cf = jnp.where(flip, n - x_cf, x_cf)\n", ""),
    ("bad", R, "    x_cf = jnp.round(x_cf)\n", ""),
    ("bad", R, "    gamma1 = (q0 - p0) / (sigma + 1e-12)\n", "    gamma1 = (p0 - q0) / (sigma + 1e-12)\n"),
    ("bad", R, TP, "            x < mu, -((x - mu) ** 2) / sigma_pos**2 / 2, -((x - mu) ** 2) / sigma_neg**2 / 2\n"),
    ("bad", R, "        norm = 2 / (sigma_pos + sigma_neg) / np.sqrt(2 * np.pi)\n", "        norm = 1 / (sigma_pos + sigma_neg) / np.sqrt(2 * np.pi)\n"),
    ("bad", R, TR, TR.replace("use_neg_half = ~use_pos_half", "use_neg_half = np.random.uniform(size=size) >= pos_half_prob")),
    ("bad", R, TR, TR.replace("np.abs(np.random.normal(size=size))", "np.random.normal(size=size)")),
    ("bad", R, TR, TR.replace("np.random.uniform(size=size) <", "np.random.uniform() <")),
    ("bad", R, "        pos_half_prob = sigma_pos / (sigma_pos + sigma_neg)\n", "        pos_half_prob = 0.5\n"),
    ("bad", R, "        sigma_pos = self.yerr_upper(x)\n        sigma_neg = self.yerr_lower(x)\n", "        sigma_pos = self.yerr_lower(x)\n        sigma_neg = self.yerr_upper(x)\n"),
    ("bad", R, "        logpdf = np.where(np.isnan(mu), -np.inf, logpdf)\n", ""),
    ("bad", U, ER, ER.replace("p / 2", "p")),
    ("bad", U, ER, ER.replace("x[0] / (x[0] + x[1])", "x[1] / (x[0] + x[1])")),
    ("bad", U, "1 - chi2.cdf(1, 1)", "chi2.cdf(1, 1)"),
    ("ok", R, UNI, "    rvs = vmin + (vmax - vmin) * random.uniform(seed, shape)\n"),
    ("ok", R, GAM, "    rvs = random.gamma(seed, alpha, shape) / beta\n"),
    ("ok", R, NOR, "    z = random.normal(seed, shape)\n    rvs = mean + std * z\n"),
    ("ok", R, NOR, "    rvs = mean - std * random.normal(seed, shape, dtype=FLOAT)\n"),
    ("ok", R, SK, "    delta = a / jnp.sqrt(1 + a**2)\n    rvs = delta * jnp.abs(rvs0) + jnp.sqrt(1 - delta**2) * rvs1\n"),
    ("ok", R, SK2, "    rvs = loc + scale * rvs\n"),
    ("ok", R, NB, "    odds = p / (1.0 - p)\n    key, lam = gamma(key, alpha=n, beta=odds, shape=shape)\n"),
    ("ok", R, BODY, "        key, children = poisson(args[0], args[1] * eta)\n        offspring = children\n        population = offspring + args[2]\n"),
    ("ok", R, "        return jnp.any(args[1] > 0)\n", "        return jnp.sum(args[1]) > 0\n"),
    ("ok", R, HS, "    successes = jnp.logical_and(mask, uniforms < p_flat[:, None])\n"),
    ("ok", R, HX, "    x = jnp.where(n > threshold, x_cf, x_bernoulli)\n"),
    ("ok", R, TR, TR.replace("np.random.uniform(size=size) < pos_half_prob", "np.random.uniform(size=size) <= pos_half_prob")),
    ("ok", R, TR, '''        u = np.random.uniform(size=size)
        n_sigma = np.abs(np.random.normal(size=size))
        offset = np.where(u < pos_half_prob, n_sigma * sigma_pos, -n_sigma * sigma_neg)
'''),
    ("ok", R, TP, "            x >= mu, -0.5 * ((x - mu) / sigma_pos) ** 2, -0.5 * ((x - mu) / sigma_neg) ** 2\n"),
    ("ok", U, ER, ER.replace("1 - erf(errors[0] / x[0] / np.sqrt(2))", "1 - erf(errors[0] / (np.sqrt(2) * x[0]))")),
]
