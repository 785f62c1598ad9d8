X = "appletree/context.py"
ENTRIES = [
    ("bad", X, 'instruct = json.loads(file["mcmc"].attrs["instruct"])', 'instruct = eval(file["mcmc"].attrs["instruct"])'),
    ("bad", X, 'instruct = json.loads(file["mcmc"].attrs["instruct"])', 'instruct = json.loads(file["mcmc"].attrs["instructions"])'),
    ("bad", X, 'instruct = json.loads(file["mcmc"].attrs["instruct"])', 'instruct = json.loads(file["mcmc"].attrs["config"])'),
    ("bad", X, 'opt[name].attrs["instruct"] = json.dumps(self.instruct, **JSON_OPTIONS)', 'opt[name].attrs["instruct"] = str(self.instruct)'),
    ("bad", X, 'opt[name].attrs["instruct"] = json.dumps(self.instruct, **JSON_OPTIONS)', 'opt[name].attrs["instruct"] = json.dumps(self.config, **JSON_OPTIONS)'),
    ("bad", X, '                opt[name].attrs["batch_size"] = batch_size\n', ''),
    ("bad", X, 'opt[name].attrs["batch_size"] = batch_size', 'opt[name].attrs["batch_size"] = 1_000_000'),
    ("bad", X, 'tree.pre_fitting(nwalkers, batch_size=batch_size, moves=moves)', 'tree.pre_fitting(nwalkers, moves=moves)'),
    ("bad", X, 'tree.pre_fitting(nwalkers, batch_size=batch_size, moves=moves)', 'tree.pre_fitting(nwalkers, reset=True, batch_size=batch_size, moves=moves)'),
    ("bad", X, 'tree.pre_fitting(nwalkers, batch_size=batch_size, moves=moves)', 'tree.pre_fitting(batch_size, batch_size=nwalkers, moves=moves)'),
    ("bad", X, 'h5py.File(self.backend_h5, "r+")', 'h5py.File(self.backend_h5, "w")'),
    ("bad", X, '            skip_initial_state_check=True,\n        )\n\n        self._dump_meta(batch_size=batch_size)\n', '            skip_initial_state_check=True,\n        )\n\n'),
    ("bad", X, '        result = self.sampler.run_mcmc(\n            p0,\n            iteration,\n            store=True,\n            progress=True,\n        )\n\n        self._dump_meta(batch_size=batch_size)\n',
     '        self._dump_meta(batch_size=batch_size)\n        result = self.sampler.run_mcmc(\n            p0,\n            iteration,\n            store=True,\n            progress=True,\n        )\n\n'),
    ("bad", X, '        if self.backend_h5 is not None:\n            name = self', '        if self.backend_h5 is None:\n            name = self'),
    ("bad", X, 'self._dump_meta(batch_size=batch_size)\n        return result\n\n    def continue', 'if context_is_new:\n            self._dump_meta(batch_size=batch_size)\n        return result\n\n    def continue'),
    ("ok", X, 'opt[name].attrs["batch_size"] = batch_size', 'attrs = opt[name].attrs\n                attrs["batch_size"] = int(batch_size)'),
    ("ok", X, '''                # configs
                opt[name].attrs["config"] = json.dumps(self.config, **JSON_OPTIONS)
                # configurations, maybe users will manually add some maps
                opt[name].attrs["_cached_configs"] = json.dumps(_cached_configs, **JSON_OPTIONS)
''', '''                for key, value in {"config": self.config, "_cached_configs": _cached_configs}.items():
                    opt[name].attrs[key] = json.dumps(value, **JSON_OPTIONS)
'''),
    ("ok", X, '''            instruct = json.loads(file["mcmc"].attrs["instruct"])
            nwalkers = file["mcmc"].attrs["nwalkers"]
            batch_size = file["mcmc"].attrs["batch_size"]
''', '''            attributes = file["mcmc"].attrs
            instruct_text = attributes["instruct"]
            nwalkers = attributes["nwalkers"]
            batch_size = attributes["batch_size"]
        instruct = json.loads(instruct_text)
'''),
    ("ok", X, '''        if self.backend_h5 is not None:
            name = self.sampler.backend.name
            with''', '''        if self.backend_h5 is None:
            return
        if True:
            name = self.sampler.backend.name
            with'''),
]
