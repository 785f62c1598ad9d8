U = "appletree/utils.py"
F = "appletree/config.py"
X = "appletree/context.py"
L = "appletree/likelihood.py"
P = "appletree/component.py"
G = "appletree/plugin.py"
FP = '''                os.path.basename(self.file_path)
                if not utils.FULL_PATH_LINEAGE
                else get_file_path(self.file_path)
'''
SH = '''    with open(file_path, "rb") as f:
        for byte_block in iter(lambda: f.read(4096), b""):
            sha256_hash.update(byte_block)
'''
MB = '''            "method": self.method,
            "median": self.median.lineage,
'''
BN = '''                    tuple(b.tolist() for b in self.bins) if self.bins is not None else self.bins
'''
CI = '''            **self.instruct,
            **{
                "par_config": self.par_config,
                "likelihoods": dict(
                    zip(
                        self.likelihoods.keys(),
                        [v.lineage for v in self.likelihoods.values()],
                    )
                ),
            },
'''
ENTRIES = [
    ("bad", F, '            "value": self.value,\n', '            "value": str(type(self.value)),\n'),
    ("bad", F, '            "value": self.value,\n', '            "name": self.name,\n'),
    ("bad", F, '            "method": self.method,\n            "file_path"', '            "file_path"'),
    ("bad", F, '            "sha256": calculate_sha256(get_file_path(self.file_path)),\n', ''),
    ("bad", F, '            "sha256": calculate_sha256(get_file_path(self.file_path)),\n', '            "sha256": calculate_sha256(get_file_path(self.default)),\n'),
    ("bad", F, '            "sha256": calculate_sha256(get_file_path(self.file_path)),\n', '            "sha256": len(calculate_sha256(get_file_path(self.file_path))),\n'),
    ("bad", F, MB, '            "median": self.median.lineage,\n'),
    ("bad", F, '            "upper": self.upper.lineage,\n', '            "upper": self.lower.lineage,\n'),
    ("bad", F, '            "upper": self.upper.lineage,\n', '            "upper": self.upper.method,\n'),
    ("bad", F, '            "parameter": self.required_parameter(),\n', ''),
    ("bad", F, '            "parameter": self.required_parameter(),\n', '            "parameter": self.required_parameter() is not None,\n'),
    ("bad", F, '{k: v.tolist() for k, v in self.value.items()}', '{k: v.tolist() for k, v in self.value.items() if len(v) > 1}'),
    ("bad", F, '{k: v.tolist() for k, v in self.value.items()}', '{k: v.mean() for k, v in self.value.items()}'),
    ("bad", F, '{k: v.tolist() for k, v in self.value.items()}', '{k: v[0] for k, v in self.value.items()}'),
    ("bad", F, '{k: v.tolist() for k, v in self.value.items()}', 'list(self.value.keys())'),
    ("bad", F, '{k: v.tolist() for k, v in self.value.items()}', 'self.value'),
    ("bad", F, '        return deterministic_hash(self.lineage)\n', '        return deterministic_hash(self.name)\n'),
    ("bad", F, '        return deterministic_hash(self.lineage)\n', '        return deterministic_hash((self.lineage, id(self)))\n'),
    ("bad", F, '            "llh_name": self.llh_name,\n            "method": self.method,\n            "file_path"', '            "llh_name": self.llh_name,\n            "time": os.path.getmtime(self.file_path),\n            "method": self.method,\n            "file_path"'),
    ("bad", G, '            "depends_on": self.depends_on,\n', ''),
    ("bad", G, '            "provides": self.provides,\n', '            "provides": len(self.provides),\n'),
    ("bad", G, '            "parameters": self.parameters,\n', '            "parameters": self.parameters[:1],\n'),
    ("bad", G, "for v in self.takes_config.values()],\n                )", "for v in self.takes_config.values() if v.type is not None],\n                )"),
    ("bad", G, "[getattr(self, v.name).lineage for v", "[getattr(self, v.name).name for v"),
    ("bad", G, '        return deterministic_hash(self.lineage)\n', '        return deterministic_hash(self.__class__.__name__)\n'),
    ("bad", P, '            "rate_name": self.rate_name,\n            "norm_type": self.norm_type,\n            "code"', '            "rate_name": self.rate_name,\n            "code"'),
    ("bad", P, '            "code": self.code,\n', ''),
    ("bad", P, '            "code": self.code,\n', '            "code": self.func_name,\n'),
    ("bad", P, "[_cached_functions[self.llh_name][p].lineage for p in self.instances]", "[_cached_functions[self.llh_name][p].provides for p in self.instances]"),
    ("bad", P, BN, "                    tuple(len(b) for b in self.bins) if self.bins is not None else self.bins\n"),
    ("bad", P, BN, "                    tuple((b.min(), b.max()) for b in self.bins) if self.bins is not None else self.bins\n"),
    ("bad", P, BN, "                    self.bins[0].tolist() if self.bins is not None else self.bins\n"),
    ("bad", P, BN, "                    tuple(self.bins) if self.bins is not None else self.bins\n"),
    ("bad", P, BN, "                    self.bins\n"),
    ("bad", P, '            **bins_dict,\n', ''),
    ("bad", P, '                "bins_type": self.bins_type,\n            }\n        return', '            }\n        return'),
    ("bad", P, '            "sha256": calculate_sha256(get_file_path(self._file_name)),\n', ''),
    ("bad", P, '            "sha256": calculate_sha256(get_file_path(self._file_name)),\n', '            "sha256": calculate_sha256(get_file_path(self.name)),\n'),
    ("bad", L, '            "config": self._config,\n            "file_path"', '            "file_path"'),
    ("bad", L, '            "config": self._config,\n            "file_path"', '            "config": {k: self._config[k] for k in ("bins", "bins_type")},\n            "file_path"'),
    ("bad", L, '            "config": self._config,\n            "file_path"', '            "config": self._config["bins"],\n            "file_path"'),
    ("bad", L, '            "sha256": calculate_sha256(get_file_path(self._data_file_name)),\n', '            "sha256": None,\n'),
    ("bad", L, '[v.lineage for v in self.components.values()]', '[v.name for v in self.components.values()]'),
    ("bad", L, '[v.lineage_hash for v in self.components.values()]', '[v.name for v in self.components.values()]'),
    ("bad", X, '            **self.instruct,\n', ''),
    ("bad", X, '                "par_config": self.par_config,\n', ''),
    ("bad", X, CI, CI.replace('            **self.instruct,\n', '') + "            **self.instruct,\n"),
    ("bad", X, '            **self.instruct,\n', '            **{k: v for k, v in self.instruct.items() if isinstance(v, str)},\n'.replace("isinstance(v, str)", "not k.startswith('c')")),
    ("bad", X, '                "par_config": self.par_config,\n', '                "par_config": self.par_config,\n                "configs": dict(),\n'),
    ("bad", X, "[v.lineage for v in self.likelihoods.values()]", "[v.name for v in self.likelihoods.values()]"),
    ("bad", X, '        return deterministic_hash(self.lineage)\n', '        return deterministic_hash(self.instruct)\n'),
    ("bad", U, SH, SH.replace("        for byte_block in iter(lambda: f.read(4096), b\"\"):\n            sha256_hash.update(byte_block)\n", "        sha256_hash.update(f.read(4096))\n")),
    ("bad", U, SH, SH.replace('"rb"', '"r"').replace("sha256_hash.update(byte_block)", "sha256_hash.update(byte_block.encode())").replace('b""', '""')),
    ("bad", U, SH, SH + "            break\n"),
    ("bad", U, SH, SH.replace('        for', '        f.seek(64)\n        for')),
    ("bad", U, SH, SH.replace('b"")', 'b"\\n")')),
    ("bad", U, "    return sha256_hash.hexdigest()", "    return sha256_hash.hexdigest()[:0]"),
    ("bad", U, "json.dumps(entity.lineage, **JSON_OPTIONS)", "json.dumps(entity.lineage_hash, **JSON_OPTIONS)"),
    ("bad", U, "json.dumps(entity.lineage, **JSON_OPTIONS)", "json.dumps(entity.lineage, skipkeys=True)"),
    ("ok", U, SH, SH.replace("        for byte_block in iter(lambda: f.read(4096), b\"\"):\n            sha256_hash.update(byte_block)\n", "        sha256_hash.update(f.read())\n")),
    ("ok", U, SH, SH.replace("        for byte_block in iter(lambda: f.read(4096), b\"\"):\n            sha256_hash.update(byte_block)\n", "        while chunk := f.read(65536):\n            sha256_hash.update(chunk)\n")),
    ("ok", U, SH, SH.replace("        for byte_block in iter(lambda: f.read(4096), b\"\"):\n            sha256_hash.update(byte_block)\n", "        while True:\n            chunk = f.read(65536)\n            if not chunk:\n                break\n            sha256_hash.update(chunk)\n")),
    ("ok", U, SH, SH.replace("        for byte_block in iter(lambda: f.read(4096), b\"\"):\n            sha256_hash.update(byte_block)\n", "        chunk = f.read(65536)\n        while chunk:\n            sha256_hash.update(chunk)\n            chunk = f.read(65536)\n")),
    ("ok", U, SH, SH.replace("byte_block", "b").replace("4096", "2**16")),
    ("ok", F, '{k: v.tolist() for k, v in self.value.items()}', 'dict((k, self.value[k].tolist()) for k in self.value)'),
    ("ok", F, FP, FP.replace("os.path.basename(self.file_path)\n                if not utils.FULL_PATH_LINEAGE\n                else get_file_path(self.file_path)", "get_file_path(self.file_path)\n                if utils.FULL_PATH_LINEAGE\n                else os.path.basename(self.file_path)")),
    ("ok", F, '            "sha256": calculate_sha256(get_file_path(self.file_path)),\n        }', '            **dict(sha256=calculate_sha256(get_file_path(self.file_path))),\n        }'),
    ("ok", F, MB, '            "method": self.method,\n            "name": self.name,\n            "median": self.median.lineage,\n'),
    ("ok", P, '''        bins_dict = dict()
        if hasattr(self, "bins") or hasattr(self, "bins_type"):
            bins_dict = {
                "bins": (
                    tuple(b.tolist() for b in self.bins) if self.bins is not None else self.bins
                ),
                "bins_type": self.bins_type,
            }
''', '''        bins_dict = dict()
        if hasattr(self, "bins"):
            bins = None
            if self.bins is not None:
                bins = [b.tolist() for b in self.bins]
            bins_dict["bins"] = bins
            bins_dict["bins_type"] = self.bins_type
'''),
    ("ok", P, '''            "instances": dict(
                zip(
                    self.instances,
                    [_cached_functions[self.llh_name][p].lineage for p in self.instances],
                )
            ),
''', '''            "instances": {
                p: _cached_functions[self.llh_name][p].lineage for p in sorted(self.instances)
            },
'''),
    ("ok", X, CI, '''            **self.instruct,
            "par_config": self.par_config,
            "likelihoods": {k: v.lineage for k, v in self.likelihoods.items()},
'''),
    ("ok", X, "        return {\n" + CI + "        }\n", '''        lineage = dict(self.instruct)
        lineage["par_config"] = self.par_config
        lineage["likelihoods"] = {k: v.lineage for k, v in self.likelihoods.items()}
        return lineage
'''),
    ("ok", L, '''            "components": dict(
                zip(
                    self.components.keys(),
                    [v.lineage for v in self.components.values()],
                )
            ),
''', '''            "components": {name: c.lineage for name, c in self.components.items()},
'''),
    ("ok", G, '''            "takes_config": dict(
                zip(
                    self.takes_config.keys(),
                    # self's own (likelihood-specific) copy of the configs
                    [getattr(self, v.name).lineage for v in self.takes_config.values()],
                )
            ),
''', '''            "takes_config": {
                k: getattr(self, v.name).lineage for k, v in self.takes_config.items()
            },
'''),
    ("ok", G, '            "depends_on": self.depends_on,\n            "provides": self.provides,\n', '            "provides": list(self.provides),\n            "depends_on": list(self.depends_on),\n'),
    ("ok", X, '        return deterministic_hash(self.lineage)\n', '        lineage = self.lineage\n        return deterministic_hash(lineage)\n'),
    ("ok", U, "        f.write(json.dumps(entity.lineage, **JSON_OPTIONS))\n", "        json.dump(entity.lineage, f, **JSON_OPTIONS)\n"),
]
