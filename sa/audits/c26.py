X = "appletree/context.py"
ACC = '''            log_posterior = 0
            for likelihood in self.likelihoods.values():
                key, log_likelihood_i = likelihood.get_log_likelihood(
                    key,
                    batch_size,
                    self.par_manager.get_all_parameter(),
                )
                log_posterior += log_likelihood_i

            log_posterior += log_prior
            return log_posterior
'''
REP = '''            log_posteriors = []
            for _ in range(repeat_times):
                log_posteriors.append(_log_posterior_once(batch_size))
            log_posterior = np.mean(log_posteriors)
'''
ENTRIES = [
    ("bad", X, "log_posterior += log_likelihood_i\n", "log_posterior += log_likelihood_i\n                log_posterior += log_prior\n"),
    ("bad", X, "            log_posterior += log_prior\n", ""),
    ("bad", X, "            log_posterior += log_prior\n            return log_posterior\n", "                log_posterior += log_prior\n            return log_posterior\n"),
    ("bad", X, "log_posterior += log_likelihood_i", "log_posterior = log_likelihood_i"),
    ("bad", X, "log_posterior += log_likelihood_i", "log_posterior -= log_likelihood_i"),
    ("bad", X, "log_posterior += log_likelihood_i", "if np.isfinite(log_likelihood_i):\n                    log_posterior += log_likelihood_i"),
    ("bad", X, "np.mean(log_posteriors)", "np.sum(log_posteriors)"),
    ("bad", X, "np.mean(log_posteriors)", "np.median(log_posteriors)"),
    ("bad", X, "np.mean(log_posteriors)", "log_posteriors[-1]"),
    ("bad", X, "for _ in range(repeat_times):", "for _ in range(repeat_times - 1):"),
    ("bad", X, "        self.par_manager.set_parameter(parameters)\n        log_prior = self.par_manager.log_prior\n",
     "        log_prior = self.par_manager.log_prior\n        self.par_manager.set_parameter(parameters)\n"),
    ("bad", X, "                    batch_size,\n                    self.par_manager.get_all_parameter(),", "                    batch_size,\n                    parameters,"),
    ("bad", X, "        return log_posterior, log_prior", "        return log_posterior, log_posterior"),
    ("bad", X, '"batch_size": batch_size, "repeat_times": repeat_times}', '"batch_size": batch_size}'),
    ("bad", X, '            read_only=False,\n            reset=True,\n            batch_size=batch_size,', '            read_only=False,\n            reset=True,'),
    ("bad", X, '            moves=moves,\n            repeat_times=repeat_times,\n', '            moves=moves,\n'),
    ("bad", X, "            key = randgen.get_key()\n            log_posterior = 0\n            for likelihood in self.likelihoods.values():\n                key, log_likelihood_i",
     "            key = randgen.get_key()\n            log_posterior = 0\n            for likelihood in self.likelihoods.values():\n                _, log_likelihood_i"),
    ("ok", X, ACC, '''            llhs = []
            for likelihood in self.likelihoods.values():
                key, llh = likelihood.get_log_likelihood(key, batch_size, self.par_manager.get_all_parameter())
                llhs.append(llh)
            return sum(llhs) + log_prior
'''),
    ("ok", X, ACC, '''            total = log_prior
            params = self.par_manager.get_all_parameter()
            for name, likelihood in self.likelihoods.items():
                key, llh = likelihood.get_log_likelihood(key, batch_size=batch_size, parameters=params)
                total = llh + total
            return total
'''),
    ("ok", X, REP, '''            log_posterior = np.mean([_log_posterior_once(batch_size) for _ in range(repeat_times)])
'''),
    ("ok", X, REP, '''            log_posterior = sum(_log_posterior_once(batch_size) for _ in range(repeat_times)) / repeat_times
'''),
    ("ok", X, '            kwargs={"batch_size": batch_size, "repeat_times": repeat_times},', '            kwargs=dict(batch_size=batch_size, repeat_times=repeat_times),'),
]
