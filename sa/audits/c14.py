L, R = "appletree/likelihood.py", "appletree/randgen.py"
ZERO = "if np.any(model_hist <= 0):"
NAN = "if np.any(np.isnan(model_hist)) or np.any(np.isinf(model_hist)):"
PO = "llh = np.sum(self.data_hist * np.log(model_hist) - model_hist)"
LIT = "llh = (llh * eff).sum()"
ENTRIES = [
    ("bad", L, ZERO, "if np.any(model_hist < 0):"),
    ("bad", L, ZERO, "if np.all(model_hist <= 0):"),
    ("bad", L, ZERO, "if np.any(model_hist == 0):"),
    ("bad", L, ZERO, "if np.sum(model_hist) <= 0:"),
    ("bad", L, ZERO, "if np.any(model_hist <= 1e-3):"),
    ("bad", L, ZERO, "if np.min(model_hist[self.data_hist > 0]) <= 0:") if False else ("bad", L, ZERO, "if np.max(model_hist) <= 0:"),
    ("bad", L, NAN, "if np.any(np.isnan(model_hist)):"),
    ("bad", L, NAN, "if np.any(np.isinf(model_hist)):"),
    ("bad", L, NAN, "if np.any(np.isnan(model_hist)) and np.any(np.isinf(model_hist)):"),
    ("bad", L, NAN, "if np.all(np.isnan(model_hist)) or np.any(np.isinf(model_hist)):"),
    ("bad", L, NAN, "if np.isnan(np.nansum(model_hist)) or np.any(np.isinf(model_hist)):"),
    ("bad", L, PO, "llh = np.sum(self.data_hist * np.log(model_hist))"),
    ("bad", L, PO, "llh = np.sum(self.data_hist * np.log(model_hist) + model_hist)"),
    ("bad", L, PO, "llh = np.sum(model_hist * np.log(self.data_hist) - model_hist)"),
    ("bad", L, PO, "llh = np.mean(self.data_hist * np.log(model_hist) - model_hist)"),
    ("bad", L, PO, "llh = np.sum(self.data_hist * np.log10(model_hist) - model_hist)"),
    ("bad", L, PO, "llh = np.sum(np.where(self.data_hist > 0, self.data_hist * np.log(model_hist) - model_hist, 0))"),
    ("bad", L, '            return key, -float("inf")\n        if np.any(np.isnan', '            return key, -1e300\n        if np.any(np.isnan'),
    ("bad", L, "key, model_hist = self._simulate_model_hist(key, batch_size, parameters)\n\n        # More", "key, model_hist = self._simulate_model_hist(key, 1000, parameters)\n\n        # More"),
    ("bad", L, LIT, "llh = llh.sum()"),
    ("bad", L, LIT, "llh = llh.sum() * eff.mean()"),
    ("bad", L, LIT, "llh = (llh + eff).sum()"),
    ("bad", L, "energies, yields, eff = result", "yields, energies, eff = result"),
    ("bad", L, "        if np.isnan(llh):\n            llh = -np.inf\n", ""),
    ("bad", L, "            llh = -np.inf\n", "            llh = np.inf\n"),
    ("bad", L, "            llh = -np.inf\n", "            llh = 0.0\n"),
    ("bad", L, "lambda x, y: norm.logpdf(x=y", "lambda x, y: norm.logpdf(x=x"),
    ("bad", L, "self.bandtwohalfnorm.logpdf(x=x, y=y)", "self.bandtwohalfnorm.logpdf(x=y, y=x)"),
    ("bad", L, "lambda x, y: norm.logpdf(x=y", "lambda x, y: TwoHalfNorm.logpdf(x=y"),
    ("bad", R, "sigma_pos = self.yerr_upper(x)", "sigma_pos = self.yerr_lower(x)"),
    ("bad", R, "self.yerr_lower = interp1d(x, yerr_lower,", "self.yerr_lower = interp1d(x, yerr_upper,"),
    ("bad", R, "logpdf = np.where(np.isnan(mu), -np.inf, logpdf)", "logpdf = np.where(np.isnan(mu), 0, logpdf)"),
    ("ok", L, ZERO, "if not np.all(model_hist > 0):"),
    ("ok", L, ZERO, "if (model_hist <= 0).any():"),
    ("ok", L, ZERO, "if np.min(model_hist) <= 0:"),
    ("ok", L, ZERO, "if np.count_nonzero(model_hist <= 0) > 0:"),
    ("ok", L, NAN, "if not np.all(np.isfinite(model_hist)):"),
    ("ok", L, NAN, "if np.any(~np.isfinite(model_hist)):"),
    ("ok", L, NAN, "if not np.isfinite(np.sum(model_hist)):"),
    ("ok", L, NAN, "if np.isnan(model_hist).any() or np.isinf(model_hist).any():"),
    ("ok", L, NAN, "if np.any(np.isnan(model_hist) | np.isinf(model_hist)):"),
    ("ok", L, PO, "llh = np.sum(self.data_hist * np.log(model_hist)) - np.sum(model_hist)"),
    ("ok", L, PO, "llh = (self.data_hist * np.log(model_hist) - model_hist).sum()"),
    ("ok", L, PO, "log_m = np.log(model_hist)\n        llh = -np.sum(model_hist - log_m * self.data_hist)"),
    ("ok", L, PO, "llh = (self.data_hist * np.log(model_hist)).sum()\n        llh -= model_hist.sum()"),
    ("ok", L, 'return key, -float("inf")\n        if np.any(np.isnan', 'return key, -np.inf\n        if np.any(np.isnan'),
    ("ok", L, LIT, "llh = np.sum(eff * llh)"),
    ("ok", L, LIT, "llh = np.dot(llh, eff)"),
    ("ok", L, "        if np.isnan(llh):\n            llh = -np.inf\n        return key, llh", "        return key, -np.inf if np.isnan(llh) else llh"),
    ("ok", L, "energies, yields, eff = result\n        llh = self.logpdf(energies, yields)\n        llh = (llh * eff)", "density = self.logpdf(result[0], result[1])\n        llh = (density * result[-1])"),
]
