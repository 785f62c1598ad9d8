R = "appletree/randgen.py"
P = "appletree/component.py"
L = "appletree/likelihood.py"
X = "appletree/context.py"
A = "appletree/parameter.py"
F = "appletree/config.py"
D = "appletree/plugins/detector.py"
G = "appletree/plugin.py"
GK = "    if seed is None:\n        seed = int(time() * 1e6)\n"
SH = "        key, result = self.simulate(key, batch_size, parameters)\n        if self.force_no_eff:\n"
MH = "        hist = np.zeros_like(self.data_hist)\n"
NU = "    key, seed = random.split(key)\n\n    shape = shape or jnp.shape(lam)\n"
MP = "        val = self.interpolator(\n"
SD = "        if seed is not None:\n            np.random.seed(seed)\n        self.sample_prior()\n"
ENTRIES = [
    ("bad", R, GK, "    if not seed:\n        seed = int(time() * 1e6)\n"),
    ("bad", R, GK, "    seed = seed or int(time() * 1e6)\n"),
    ("bad", R, GK, GK + "    seed = seed + 1\n"),
    ("bad", R, GK, GK + "    seed = seed % 1000\n"),
    ("bad", R, "    return random.PRNGKey(seed)\n", "    return random.PRNGKey(abs(hash(str(seed))))\n"),
    ("ok", R, GK, "    if seed is None:\n        seed = int(1e6 * time())\n"),
    ("ok", R, GK, "    seed = int(time() * 1e6) if seed is None else seed\n"),
    ("ok", R, "    return random.PRNGKey(seed)\n", "    return random.PRNGKey(int(seed))\n"),
    ("bad", X, "        key = randgen.get_key(seed=seed)\n", "        key = randgen.get_key()\n"),
    ("bad", X, "        key = randgen.get_key(seed=seed)\n", "        key = randgen.get_key(seed=seed or None)\n"),
    ("bad", X, "        key = randgen.get_key(seed=seed)\n", "        key = randgen.get_key(seed=seed) if seed else randgen.get_key()\n"),
    ("ok", X, "        key = randgen.get_key(seed=seed)\n", "        key = randgen.get_key(seed)\n"),
    ("ok", X, "        key = randgen.get_key(seed=seed)\n", "        key = randgen.get_key() if seed is None else randgen.get_key(seed)\n"),
    ("bad", A, SD, "        if seed:\n            np.random.seed(seed)\n        self.sample_prior()\n"),
    ("bad", A, SD, "        self.sample_prior()\n        if seed is not None:\n            np.random.seed(seed)\n"),
    ("bad", A, SD, "        self.sample_prior()\n"),
    ("ok", A, SD, "        if not (seed is None):\n            np.random.seed(seed=seed) if False else np.random.seed(seed)\n        self.sample_prior()\n"),
    ("bad", R, NU, NU + "    lam = lam * (1 + 1e-9 * np.random.uniform())\n"),
    ("bad", P, SH, "        from time import time\n\n" + SH.replace("simulate(key", "simulate(jnp.asarray(key) + int(time())")),
    ("bad", P, SH, '        self._last_key = getattr(self, "_last_key", key)\n' + SH.replace("simulate(key", "simulate(self._last_key")),
    ("bad", P, SH, '        key, result = self.simulate(key, batch_size, parameters)\n        self._mc = result\n        if self._mc[-1].sum() < 0:\n            pass\n        if self.force_no_eff:\n'),
    ("ok", P, SH, '        key, result = self.simulate(key, batch_size, parameters)\n        self._last_batch = batch_size\n        if self.force_no_eff:\n'),
    ("bad", L, MH, '        self._seen = getattr(self, "_seen", 0) + 1\n        batch_size = max(batch_size // self._seen, 1)\n' + MH),
    ("ok", L, MH, '        self._seen = getattr(self, "_seen", 0) + 1\n' + MH),
    ("bad", L, MH, '        if not hasattr(self, "_hist"):\n            self._hist = np.zeros_like(self.data_hist)\n        hist = self._hist\n        hist += 0 * batch_size\n'),
    ("bad", L, MH, '        cache = self._config.setdefault("cache", {})\n        if "h" not in cache:\n            cache["h"] = batch_size\n        batch_size = cache["h"]\n' + MH),
    ("ok", L, MH, '        if not hasattr(self, "_shape"):\n            self._shape = self.data_hist.shape\n' + MH),
    ("bad", F, MP, '        if os.environ.get("FAST_MAPS"):\n            return jnp.mean(self.map)\n' + MP),
    ("bad", F, MP, '        self._cached = getattr(self, "_cached", None) or pos\n        pos = self._cached\n' + MP),
    ("ok", F, MP, '        self._grid = self.preprocess(self.coordinate_system)\n' + MP),
    ("bad", D, "        drift_survive_prob = ", '        self.last = z\n        drift_survive_prob = '),
    ("bad", D, "        drift_survive_prob = ", '        _cached_configs["z"] = z\n        drift_survive_prob = '),
    ("ok", P, SH, '        import time\n\n        start = time.time()\n        print(f"{time.time() - start}")\n' + SH),
    ("bad", P, "            key, results = self.simulate(key, batch_size, parameters)\n            if apply_eff:\n", "            key = key + id(self) % 7\n            key, results = self.simulate(key, batch_size, parameters)\n            if apply_eff:\n"),
]
