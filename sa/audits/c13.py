L, K, H, U = "appletree/likelihood.py", "appletree/component.py", "appletree/hist.py", "appletree/utils.py"
I1 = "ind = jnp.searchsorted(bins, sample)"
IX = "ind_x = jnp.searchsorted(bins_x, x)"
IY = "ind_y = vmap(jnp.searchsorted, (0, 0), 0)(bins_y[ind_x - 1], y)"
ENTRIES = [
    ("bad", H, I1, "ind = jnp.searchsorted(bins, sample) - 1"),
    ("bad", H, "hist = jnp.zeros(len(bins) + 1)", "hist = jnp.zeros(len(bins))"),
    ("bad", H, "hist = hist.at[ind].add(weights)", "hist = hist.at[ind].set(weights)"),
    ("bad", H, "hist = hist.at[ind].add(weights)", "hist = hist.at[ind].add(1.0)"),
    ("bad", H, "return hist[1:-1]\n", "return hist[:-2]\n"),
    ("bad", H, "return hist[1:-1, 1:-1]", "return hist[1:-1, :-2]"),
    ("bad", H, "return hist[1:-1, 1:-1]", "return hist[1:, 1:-1]"),
    ("bad", H, IY, IY.replace("[ind_x - 1]", "[ind_x]")),
    ("bad", H, IY, IY.replace(", y)", ", x)")),
    ("bad", H, IX, IX.replace(", x)", ", y)")),
    ("bad", H, "hist = hist.at[tuple(bin_ind)].add(weights)", "hist = hist.at[tuple(bin_ind)].max(weights)"),
    ("bad", H, "bins=bins, weights=weights)\n    return hist", "bins=bins)\n    return hist"),
    ("bad", H, "bins=bins, weights=weights)\n    return hist", "bins=bins, weights=weights, density=True)\n    return hist"),
    ("bad", K, "make_hist_irreg_bin_1d(mc[:, 0], self.bins[0], weights=eff)", "make_hist_mesh_grid(mc, bins=self.bins, weights=eff)"),
    ("bad", K, "make_hist_irreg_bin_2d(mc, *self.bins, weights=eff)", "make_hist_irreg_bin_2d(mc[:, ::-1], *self.bins, weights=eff)"),
    ("bad", L, "bins_x=self._bins[0],\n                bins_y=self._bins[1]", "bins_x=self._bins[1],\n                bins_y=self._bins[0]"),
    ("bad", L, "self._make_data_hist(use_meshgrid=True)", "self._make_data_hist()"),
    ("bad", L, '            self.component_bins_type = "irreg"\n            if self._dim == 2:', '            self.component_bins_type = "meshgrid"\n            if self._dim == 2:'),
    ("bad", L, "bins=self._bins,\n            bins_type=self.component_bins_type", "bins=self._bins,\n            bins_type=self._bins_type"),
    ("bad", L, 'kwargs["data_names"] = self._bins_on + ["eff"]', 'kwargs["data_names"] = self._bins_on[::-1] + ["eff"]'),
    ("bad", L, 'mask = self.data[:, 0] > config["clip"][0]', 'mask = self.data[:, 0] >= config["clip"][0]'),
    ("bad", L, 'mask &= self.data[:, 1] < config["y_clip"][1]', 'mask &= self.data[:, 1] < config["x_clip"][1]'),
    ("bad", L, 'mask &= self.data[:, 1] > config["y_clip"][0]', 'mask &= self.data[:, 0] > config["y_clip"][0]'),
    ("bad", L, 'mask &= self.data[:, 0] < config["clip"][1]', 'mask |= self.data[:, 0] < config["clip"][1]'),
    ("bad", K, "mask &= result[i] > np.array(self.bins[i]).min()", "mask &= result[i] >= np.array(self.bins[i]).min()"),
    ("bad", K, "mask &= result[i] < np.array(self.bins[i]).max()", "mask &= result[i] < np.array(self.bins[0]).max()"),
    ("bad", U, "    mask &= data < clip[1]\n", "    mask &= data <= clip[1]\n"),
    ("bad", U, "mask &= data[:, 1] < y_clip[1]", "mask &= data[:, 0] < y_clip[1]"),
    ("bad", L, 'x_clip=config["x_clip"],\n                    y_clip=config["y_clip"]', 'x_clip=config["y_clip"],\n                    y_clip=config["x_clip"]'),
    ("bad", L, "weights = np.ones(len(self.data))", "weights = np.zeros(len(self.data))"),
    ("bad", L, "self._bins = self._resolve_explicit_bins(config)\n            self._make_data_hist(use_meshgrid=True)",
     "self._make_data_hist(use_meshgrid=True)\n            self._bins = self._resolve_explicit_bins(config)"),
    ("ok", H, I1, "ind = jnp.searchsorted(bins, sample, side='left')"),
    ("ok", H, I1, "edges = bins\n    ind = jnp.searchsorted(edges, sample)"),
    ("ok", H, "bin_ind = jnp.stack((ind_x, ind_y))\n", "bin_ind = (ind_x, ind_y)\n"),
    ("ok", H, "hist = hist.at[tuple(bin_ind)].add(weights)", "hist = hist.at[ind_x, ind_y].add(weights)"),
    ("ok", H, "    x = sample[:, 0]\n    y = sample[:, 1]\n", "    x, y = sample[:, 0], sample[:, 1]\n"),
    ("ok", H, "hist = jnp.zeros(len(bins) + 1)", "hist = jnp.zeros(bins.shape[0] + 1)"),
    ("ok", K, "make_hist_irreg_bin_2d(mc, *self.bins, weights=eff)", "make_hist_irreg_bin_2d(mc, self.bins[0], self.bins[1], eff)"),
    ("ok", L, 'mask = self.data[:, 0] > config["clip"][0]\n            mask &= self.data[:, 0] < config["clip"][1]',
     'lo, hi = config["clip"]\n            mask = (self.data[:, 0] > lo) & (self.data[:, 0] < hi)'),
    ("ok", L, 'mask = self.data[:, 0] > config["clip"][0]\n            mask &= self.data[:, 0] < config["clip"][1]',
     'mask = np.logical_and(self.data[:, 0] > config["clip"][0], config["clip"][1] > self.data[:, 0])'),
    ("ok", L, 'kwargs["data_names"] = self._bins_on + ["eff"]', 'kwargs["data_names"] = [*self._bins_on, "eff"]'),
    ("ok", U, "    mask = data > clip[0]\n    mask &= data < clip[1]\n", "    low, high = clip\n    mask = (data > low) & (data < high)\n"),
    ("ok", L, "bins_x=self._bins[0],\n                bins_y=self._bins[1]", "bins_y=self._bins[1],\n                bins_x=self._bins[0]"),
]
