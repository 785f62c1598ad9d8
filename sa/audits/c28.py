P = "appletree/plot.py"
PRIOR = '        self.prior = backend.get_blobs(discard=self.discard, thin=self.thin)\n'
CHAIN = '        self.chain = backend.get_chain(discard=self.discard, thin=self.thin)\n'
FCH = '        self.flat_chain = backend.get_chain(discard=self.discard, thin=self.thin, flat=True)\n'
FPR = '        self.flat_prior = backend.get_blobs(discard=self.discard, thin=self.thin, flat=True)\n'
FPO = '        self.flat_posterior = backend.get_log_prob(discard=self.discard, thin=self.thin, flat=True)\n'
MASK = '        mask = np.isfinite(self.posterior)\n        mask = np.all(mask, axis=1)\n'
FMASK = '        mask = np.isfinite(self.flat_posterior)\n'
SELM = "        self.chain = self.chain[mask]\n        self.posterior = self.posterior[mask]\n        self.prior = self.prior[mask]\n"
SELF_ = "        self.flat_chain = self.flat_chain[mask]\n        self.flat_posterior = self.flat_posterior[mask]\n        self.flat_prior = self.flat_prior[mask]\n"
MPE = "        param_mpe = self.flat_chain[np.argmax(self.flat_posterior), :]\n        self.param_mpe = {key: param_mpe[i] for i, key in enumerate(self.param_names)}\n"
BURN = '''        for i in range(self.n_param):
            ax = fig.add_subplot(n_rows, n_cols, i + 1)
            for j in range(self.n_walker):
                ax.plot(
                    np.arange(self.chain.shape[0]) * self.thin + self.discard,
                    self.chain[:, j, i],
                    **plot_kwargs,
                )
            ax.set_ylabel(self.param_names[i])
            ax.set_xlim(self.discard, self.n_iter * self.thin + self.discard)
            axes.append(ax)
'''
MARG = '''            ax.hist(self.flat_chain[:, i], density=True, label="Posterior", **hist_kwargs)
            prior = self.param_prior[self.param_names[i]]
'''
DIAG = '''        for i in range(self.n_param + 2):
            key = labels[i]
            ax = axes[i, i]
'''
SAMP = '            (self.flat_chain, self.flat_posterior[:, None], self.flat_prior[:, None]),\n'
LAB = '        labels = np.concatenate((self.param_names, ["log posterior", "log prior"]))\n'
NORM = "        return np.exp(-((x - mean) ** 2) / std**2 / 2) / np.sqrt(2 * np.pi) / std\n"
UNI = "        return np.full_like(x, 1 / (upper - lower))\n"
THN = "        sigma_pos, sigma_neg = errors_to_two_half_norm_sigmas((sigma_pos, sigma_neg))\n        return np.exp(TwoHalfNorm.logpdf(x, mu, sigma_pos, sigma_neg))\n"
AUTO = "            chain = self.chain[:, :, i].T\n"
POPS = "        coordinate_name.pop(axis_idx)\n        coordinate_lowers.pop(axis_idx)\n        coordinate_uppers.pop(axis_idx)\n        is_log_axes.pop(axis_idx)\n"
SIG = '                (low_data, "lower"),\n                (med_data, "median"),\n                (up_data, "upper"),\n'
SORT = "    axes_to_collapse.sort(key=lambda x: x[0], reverse=True)\n"
ENTRIES = [
    # series
    ("bad", P, PRIOR, "        self.prior = backend.get_blobs(discard=self.discard)\n"),
    ("bad", P, CHAIN, "        self.chain = backend.get_chain(thin=self.thin)\n"),
    ("bad", P, FCH, "        self.flat_chain = backend.get_chain(discard=self.thin, thin=self.discard, flat=True)\n"),
    ("bad", P, FPR, "        self.flat_prior = backend.get_log_prob(discard=self.discard, thin=self.thin, flat=True)\n"),
    ("bad", P, FPO, "        self.flat_posterior = backend.get_blobs(discard=self.discard, thin=self.thin, flat=True)\n"),
    ("bad", P, FPR, "        self.flat_prior = backend.get_blobs(True, self.discard, self.thin)\n"),
    ("bad", P, "        self.thin = thin\n", "        self.thin = 1\n"),
    # masks
    ("bad", P, SELM, SELM.replace("        self.chain = self.chain[mask]\n", "")),
    ("bad", P, SELF_, SELF_.replace("        self.flat_prior = self.flat_prior[mask]\n", "")),
    ("bad", P, SELF_, SELF_.replace("self.flat_prior[mask]", "self.flat_prior[np.isfinite(self.flat_prior)]")),
    ("bad", P, MASK, "        mask = ~np.isnan(self.posterior)\n        mask = np.all(mask, axis=1)\n"),
    ("bad", P, MASK, "        mask = np.isfinite(self.posterior)\n        mask = np.any(mask, axis=1)\n"),
    ("bad", P, MASK, "        mask = np.isfinite(self.prior)\n        mask = np.all(mask, axis=1)\n"),
    ("bad", P, MASK, "        mask = np.isfinite(self.posterior)\n        mask = np.all(mask, axis=0)\n"),
    ("bad", P, FMASK, "        mask = np.isfinite(self.flat_prior)\n"),
    ("bad", P, FMASK, "        mask = ~np.isinf(self.flat_posterior)\n"),
    ("bad", P, FMASK + SELF_, ""),
    # best
    ("bad", P, MPE, MPE.replace("np.argmax(self.flat_posterior)", "np.argmin(self.flat_posterior)")),
    ("bad", P, MPE, MPE.replace("np.argmax(self.flat_posterior)", "np.argmax(self.flat_prior)")),
    ("bad", P, MPE, MPE.replace("param_mpe[i] for", "param_mpe[i - 1] for")),
    ("bad", P, MPE, MPE.replace("self.flat_chain[np", "backend.get_chain(flat=True)[np")),
    ("bad", P, MPE, MPE.replace("np.argmax(self.flat_posterior)", "np.argmax(backend.get_log_prob(flat=True))")),
    ("bad", P, 'self.param_names = f["mcmc"].attrs["parameter_fit"]', 'self.param_names = f["mcmc"].attrs["par_config"]'),
    # panels
    ("bad", P, BURN, BURN.replace("self.param_names[i]", "self.param_names[i - 1]")),
    ("bad", P, BURN, BURN.replace("self.chain[:, j, i]", "self.chain[:, i, j]")),
    ("bad", P, BURN, BURN.replace("range(self.n_param)", "range(self.n_param - 1)")),
    ("bad", P, BURN, BURN.replace("range(self.n_param)", "range(1, self.n_param)")),
    ("bad", P, "                self.posterior[:, j],\n", "                self.prior[:, j],\n"),
    ("bad", P, '        ax.set_ylabel("log prior")\n', '        ax.set_ylabel("log posterior")\n'),
    ("bad", P, MARG, MARG.replace("self.param_names[i]", "self.param_names[0]")),
    ("bad", P, MARG, MARG.replace("self.flat_chain[:, i]", "self.flat_chain[:, -i]")),
    ("bad", P, AUTO, "            chain = self.chain[:, :, 0].T\n"),
    ("bad", P, AUTO, "            chain = self.chain[:, i, :].T\n"),
    # curves
    ("bad", P, NORM, "        return np.exp(-((x - mean) ** 2) / std**2 / 2) / np.sqrt(2 * np.pi)\n"),
    ("bad", P, NORM, "        return np.exp(-((x - mean) ** 2) / std**2) / np.sqrt(2 * np.pi) / std\n"),
    ("bad", P, UNI, "        return np.full_like(x, upper - lower)\n"),
    ("bad", P, THN, "        return np.exp(TwoHalfNorm.logpdf(x, mu, sigma_pos, sigma_neg))\n"),
    ("bad", P, THN, THN.replace("logpdf(x, mu, sigma_pos, sigma_neg)", "logpdf(x, mu, sigma_neg, sigma_pos)")),
    ("bad", P, THN, THN.replace("np.exp(TwoHalfNorm.logpdf(x, mu, sigma_pos, sigma_neg))", "TwoHalfNorm.logpdf(x, mu, sigma_pos, sigma_neg)")),
    # corner
    ("bad", P, LAB, LAB.replace('["log posterior", "log prior"]', '["log prior", "log posterior"]')),
    ("bad", P, SAMP, "            (self.flat_chain, self.flat_prior[:, None], self.flat_posterior[:, None]),\n"),
    ("bad", P, SAMP, "            (self.flat_posterior[:, None], self.flat_prior[:, None], self.flat_chain),\n"),
    ("bad", P, DIAG, DIAG.replace("axes[i, i]", "axes[i, 0]")),
    ("bad", P, DIAG, DIAG.replace("labels[i]", "labels[0]")),
    ("bad", P, '                elif prior["prior_type"] == "uniform":\n                    ax.plot(x, self._uniform_pdf(', '                elif prior["prior_type"] == "uniform":\n                    ax.plot(x, self._norm_pdf('),
    ("bad", P, '            "twohalfnorm": self._thn_pdf,\n', '            "twohalfnorm": self._norm_pdf,\n'),
    # maps
    ("bad", P, SIG, SIG.replace('low_data, "lower"', 'up_data, "lower"').replace('up_data, "upper"', 'low_data, "upper"')),
    ("bad", P, "        low_data = np.array(config.lower.map)\n", "        low_data = np.array(config.upper.map)\n"),
    ("bad", P, "        map_data = np.mean(map_data, axis=axis_idx)\n", "        map_data = np.sum(map_data, axis=axis_idx)\n"),
    ("bad", P, "        map_data = np.mean(map_data, axis=axis_idx)\n", "        map_data = np.mean(map_data, axis=0)\n"),
    ("bad", P, POPS, POPS.replace("coordinate_uppers.pop(axis_idx)", "coordinate_uppers.pop(0)")),
    ("bad", P, POPS, POPS.replace("        is_log_axes.pop(axis_idx)\n", "")),
    ("bad", P, SORT, "    axes_to_collapse.sort(key=lambda x: x[0])\n"),
    ("bad", P, SORT, ""),
    ("bad", P, "        map_data.T,\n", "        map_data,\n"),
    ("bad", P, '        origin="lower",\n', '        origin="upper",\n'),
    ("bad", P, '        edges1[-1]) if is_log_axes[1] else edges1[-1],\n'[0:0] + "        np.log10(edges1[-1]) if is_log_axes[1] else edges1[-1],\n", "        np.log10(edges0[-1]) if is_log_axes[1] else edges0[-1],\n"),
    ("bad", P, "    ax.set_ylabel(ylabel)\n    fig.colorbar", "    ax.set_ylabel(xlabel)\n    fig.colorbar"),
    ("bad", P, "        coord_uppers = list(np.array(config.coordinate_uppers))\n", "        coord_uppers = list(np.array(config.coordinate_lowers))\n"),
    ("bad", P, 'is_log_axes = [ct == "log_regbin" for ct in coord_type]', 'is_log_axes = [ct == "regbin" for ct in coord_type]'),
    ("bad", P, "        log_centers = np.linspace(np.log10(lower), np.log10(upper), n_bins)\n", "        log_centers = np.linspace(lower, upper, n_bins)\n"),
    ("bad", P, "        centers = np.linspace(lower, upper, n_bins)\n", "        centers = np.linspace(lower, upper, n_bins + 1)[:-1]\n"),
    ("bad", P, "    x_low = np.array(config.lower.coordinate_system)\n", "    x_low = np.array(config.median.coordinate_system)\n"),
    ("bad", P, "    ax.fill_between(centers, low_data, up_data, color=color, alpha=0.3)\n", "    ax.fill_between(centers, low_data, med_data, color=color, alpha=0.3)\n"),
    ("bad", P, "    ax.bar(\n        centers,\n", "    ax.bar(\n        edges[:-1],\n"),
    # ok
    ("ok", P, BURN, BURN.replace("range(self.n_param)", "range(0, len(self.param_names))")),
    ("ok", P, BURN, BURN.replace("range(self.n_param)", "range(self.chain.shape[2])")),
    ("ok", P, "        fig, axes = self.plot_corner()\n", "        (fig, axes) = self.plot_corner(fig=None)\n"),
    ("ok", P, PRIOR, "        self.prior = backend.get_blobs(False, thin, discard)\n"),
    ("ok", P, CHAIN, "        self.chain = np.asarray(backend.get_chain(thin=thin, discard=discard, flat=False))\n"),
    ("ok", P, MASK, "        mask = np.all(np.isfinite(self.posterior), axis=-1)\n"),
    ("ok", P, MASK, "        mask = np.isfinite(self.posterior).all(axis=1)\n"),
    ("ok", P, MASK, "        mask = ~np.any(~np.isfinite(self.posterior), axis=1)\n"),
    ("ok", P, FMASK, "        mask = ~(np.isnan(self.flat_posterior) | np.isinf(self.flat_posterior))\n"),
    ("ok", P, SELF_, "        self.flat_prior = self.flat_prior[mask]\n        self.flat_chain = self.flat_chain[mask, :]\n        self.flat_posterior = self.flat_posterior[mask]\n"),
    ("ok", P, SELF_, "        for name in (\"flat_chain\", \"flat_posterior\", \"flat_prior\"):\n            setattr(self, name, getattr(self, name)[mask])\n"),
    ("ok", P, MPE, "        best = int(np.argmax(self.flat_posterior))\n        self.param_mpe = dict(zip(self.param_names, self.flat_chain[best]))\n"),
    ("ok", P, MPE, "        best = self.flat_chain[self.flat_posterior.argmax()]\n        self.param_mpe = {self.param_names[i]: best[i] for i in range(len(self.param_names))}\n"),
    ("ok", P, BURN, BURN.replace("for i in range(self.n_param):", "for i, name in enumerate(self.param_names):").replace("self.param_names[i]", "name")),
    ("ok", P, BURN, BURN.replace("self.chain[:, j, i]", "self.chain[:, j][:, i]")),
    ("ok", P, BURN, BURN.replace("            ax = fig.add_subplot", "            walkers = self.chain[..., i]\n            ax = fig.add_subplot").replace("self.chain[:, j, i]", "walkers[:, j]")),
    ("ok", P, MARG, '            name = self.param_names[i]\n            ax.hist(self.flat_chain.T[i], density=True, label="Posterior", **hist_kwargs)\n            prior = self.param_prior[name]\n'),
    ("ok", P, NORM, "        return np.exp(-0.5 * ((x - mean) / std) ** 2) / (std * np.sqrt(2 * np.pi))\n"),
    ("ok", P, NORM, "        return norm.pdf(x, mean, std)\n"),
    ("ok", P, UNI, "        return np.ones_like(x) / (upper - lower)\n"),
    ("ok", P, THN, "        sigmas = errors_to_two_half_norm_sigmas((sigma_pos, sigma_neg))\n        return np.exp(TwoHalfNorm.logpdf(x, mu=mu, sigma_pos=sigmas[0], sigma_neg=sigmas[1]))\n"),
    ("ok", P, LAB, '        labels = [*self.param_names, "log posterior", "log prior"]\n'),
    ("ok", P, LAB, '        labels = list(self.param_names) + ["log posterior", "log prior"]\n'),
    ("ok", P, DIAG, "        for i, key in enumerate(labels):\n            ax = axes[i, i]\n"),
    ("ok", P, AUTO, "            chain = np.transpose(self.chain[:, :, i])\n"),
    ("ok", P, "        map_data = np.mean(map_data, axis=axis_idx)\n", "        map_data = map_data.mean(axis=axis_idx)\n"),
    ("ok", P, POPS, "        for entries in (coordinate_name, coordinate_lowers, coordinate_uppers, is_log_axes):\n            del entries[axis_idx]\n"),
    ("ok", P, SORT, "    axes_to_collapse = sorted(axes_to_collapse, reverse=True, key=lambda x: x[0])\n"),
    ("ok", P, SORT, "    axes_to_collapse.sort(key=lambda x: -x[0])\n"),
    ("ok", P, SIG, SIG.replace('                (low_data, "lower"),\n', "") + '                (low_data, "lower"),\n'),
    ("ok", P, "        map_data.T,\n", "        np.transpose(map_data),\n"),
    ("ok", P, "        log_centers = np.linspace(np.log10(lower), np.log10(upper), n_bins)\n        centers = 10**log_centers\n", "        log_centers = np.linspace(np.log10(lower), np.log10(upper), n_bins)\n        centers = np.power(10, log_centers)\n"),
    ("ok", P, "        low_data = np.array(config.lower.map)\n", "        low_data = np.asarray(config.lower.map)\n"),
]
