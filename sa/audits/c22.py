X = "appletree/context.py"
POP = '        for cached in ("_logp", "_chain"):\n            self.__dict__.pop(cached, None)\n'
ENTRIES = [
    ("bad", X, POP, ""),
    ("bad", X, '("_logp", "_chain")', '("_logp",)'),
    ("bad", X, POP, '        if reset:\n            for cached in ("_logp", "_chain"):\n                self.__dict__.pop(cached, None)\n'),
    ("bad", X, "self._logp = self.sampler.get_log_prob(flat=True)", "self._logp = self.sampler.get_log_prob(flat=True, discard=10)"),
    ("bad", X, "self._chain = self.sampler.get_chain(flat=True)", "self._chain = self.sampler.get_chain(flat=True, thin=2)"),
    ("bad", X, "self._chain[np.argmax(self._logp)]", "self._chain[np.argmin(self._logp)]"),
    ("bad", X, "self._chain[np.argmax(self._logp)]", "self._chain[-1]"),
    ("bad", X, "np.median(self._chain, axis=0)", "np.median(self._chain)"),
    ("bad", X, "np.median(self._chain, axis=0)", "np.mean(self._chain, axis=0)"),
    ("bad", X, "np.random.randint(len(self._logp))", "np.random.randint(len(self._logp) // 2)"),
    ("bad", X, "        parameters = copy.deepcopy(self.par_manager.get_all_parameter())\n        parameters.update(_parameters)\n", "        parameters = dict(_parameters)\n        parameters.update(copy.deepcopy(self.par_manager.get_all_parameter()))\n"),
    ("bad", X, "get_chain()[-1, :, :]", "get_chain()[0, :, :]"),
    ("bad", X, "context.sampler.get_chain()[-1, :, :]", "self.sampler.get_chain()[-1, :, :]"),
    ("bad", X, "nwalkers = context.sampler.get_chain().shape[1]", "nwalkers = context.sampler.get_chain().shape[0]"),
    ("bad", X, "nwalkers = context.sampler.get_chain().shape[1]", "nwalkers = 100"),
    ("bad", X, "            read_only=False,\n            reset=False,", "            read_only=False,\n            reset=True,"),
    ("bad", X, "            read_only=False,\n            reset=True,", "            read_only=False,\n            reset=False,"),
    ("ok", X, POP, "        if hasattr(self, '_logp'):\n            del self._logp\n        if hasattr(self, '_chain'):\n            del self._chain\n"),
    ("ok", X, '''        if not hasattr(self, "_logp"):
            self._logp = self.sampler.get_log_prob(flat=True)
        if not hasattr(self, "_chain"):
            self._chain = self.sampler.get_chain(flat=True)
        if which == "mpe":
            _parameters = self._chain[np.argmax(self._logp)]
        elif which == "random":
            _parameters = self._chain[np.random.randint(len(self._logp))]
        elif which == "median":
            _parameters = np.median(self._chain, axis=0)
''', '''        logp = self.sampler.get_log_prob(flat=True)
        chain = self.sampler.get_chain(flat=True)
        if which == "mpe":
            _parameters = chain[logp.argmax()]
        elif which == "random":
            _parameters = chain[np.random.randint(0, len(chain))]
        elif which == "median":
            _parameters = np.median(chain, 0)
'''),
    ("ok", X, "get_chain()[-1, :, :]", "get_chain()[-1]"),
    ("ok", X, POP, "        self._forget_cache()\n" ),
    ("ok", X, "nwalkers = context.sampler.get_chain().shape[1]", "_, nwalkers, _ = context.sampler.get_chain().shape"),
]
