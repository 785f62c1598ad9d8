"""Edits of the log-axis handling: breaking ones must be reported, preserving ones must stay quiet."""

F = "appletree/config.py"
PRE = '''        safe_pos = jnp.where(self._log_mask, pos, 1.0)
        log_vals = jnp.log10(jnp.clip(safe_pos, FLOAT_POS_MIN, FLOAT_POS_MAX))
        return jnp.where(self._log_mask, log_vals, pos)
'''
VAL = '''                if jnp.any(a <= 0):
                    raise'''
MV = '''                    if is_log and jnp.any(a[i] <= 0):
'''
ENTRIES = [
    ("bad", F, "            self.preprocess(self.coordinate_system),\n", "            self.coordinate_system,\n"),
    ("bad", F, "            self.preprocess(pos),\n            self.preprocess(self.coordinate_system)", "            pos,\n            self.preprocess(self.coordinate_system)"),
    ("bad", F, "            self.preprocess(self.coordinate_uppers),\n", "            self.coordinate_uppers,\n"),
    ("bad", F, "            self.preprocess(self.coordinate_lowers),\n", "            self.coordinate_lowers,\n"),
    ("bad", F, "            self.preprocess(self.coordinate_lowers),\n            self.preprocess(self.coordinate_uppers),\n",
     "            self.preprocess(self.coordinate_uppers),\n            self.preprocess(self.coordinate_lowers),\n"),
    ("bad", F, "            self.preprocess(self.coordinate_uppers),\n            self.map,\n", "            self.preprocess(self.coordinate_uppers),\n            self.preprocess(self.map),\n"),
    ("bad", F, PRE, "        return jnp.log10(jnp.clip(pos, FLOAT_POS_MIN, FLOAT_POS_MAX))\n"),
    ("bad", F, PRE, '''        log_vals = jnp.log10(jnp.clip(pos, FLOAT_POS_MIN, FLOAT_POS_MAX))
        return jnp.where(jnp.any(self._log_mask), log_vals, pos)
'''),
    ("bad", F, PRE, '''        log_vals = jnp.log10(jnp.clip(pos, FLOAT_POS_MIN, FLOAT_POS_MAX))
        return jnp.where(self._log_mask, pos, log_vals)
'''),
    ("bad", F, PRE, '''        pos = jnp.clip(pos, FLOAT_POS_MIN, FLOAT_POS_MAX)
        return jnp.where(self._log_mask, jnp.log10(pos), pos)
'''),
    ("bad", F, PRE, '''        log_vals = jnp.log10(jnp.clip(pos, 1.0, FLOAT_POS_MAX))
        return jnp.where(self._log_mask, log_vals, pos)
'''),
    ("bad", F, '            self._is_log_axis = [ct == "log_regbin" for ct in coordinate_type]\n', '            self._is_log_axis = ["log_regbin" in coordinate_type for ct in coordinate_type]\n'),
    ("bad", F, '            self._is_log_axis = [ct == "log_regbin" for ct in coordinate_type]\n', '            self._is_log_axis = [ct == "log_regbin" for ct in reversed(coordinate_type)]\n'),
    ("bad", F, '            self._is_log_axis = [ct == "log_regbin" for ct in coordinate_type]\n', '            self._is_log_axis = [coordinate_type[0] == "log_regbin"] * ndim\n'),
    ("bad", F, '            self._is_log_axis = [ct == "log_regbin" for ct in coordinate_type]\n', '            self._is_log_axis = [ct == "regbin" for ct in coordinate_type]\n'),
    ("bad", F, "            self._is_log_axis = [True] * ndim\n", "            self._is_log_axis = [True] + [False] * (ndim - 1)\n"),
    ("bad", F, "            self._is_log_axis = [False] * ndim\n", "            self._is_log_axis = [True] * ndim\n"),
    ("bad", F, '        self._is_log_axis = ["log" in data["coordinate_type"]]\n', '        self._is_log_axis = ["log" in data["coordinate_name"]]\n'),
    ("bad", F, '        self._is_log_axis = ["log" in data["coordinate_type"]]\n', '        self._is_log_axis = [data["coordinate_type"] == "point"]\n'),
    ("bad", F, VAL, VAL.replace("<=", "<")),
    ("bad", F, VAL, VAL.replace("any", "all")),
    ("bad", F, MV, MV.replace("<=", "<")),
    ("bad", F, MV, MV.replace("a[i]", "a[0]")),
    ("bad", F, MV, MV.replace("is_log and ", "")),
    ("bad", F, MV, MV.replace("is_log and ", "not is_log and ")),
    ("bad", F, "        self._validate_log_coords(self.coordinate_lowers, self.coordinate_uppers)\n", "        self._validate_log_coords(self.coordinate_uppers)\n"),
    ("bad", F, "        self._validate_log_coords(self.coordinate_system)\n", ""),
    ("bad", F, "        if not any(self._is_log_axis):\n            return\n", "        if not all(self._is_log_axis):\n            return\n"),
    ("bad", F, 'if name in ("pdf", "cdf") and self._is_log_axis[i]:', 'if name == "pdf" and self._is_log_axis[i]:'),
    ("bad", F, 'if name in ("pdf", "cdf") and self._is_log_axis[i]:', 'if name in ("pdf", "cdf") and self._is_log_axis[0]:'),
    ("bad", F, 'if name in ("pdf", "cdf") and self._is_log_axis[i]:', 'if name in ("pdf", "cdf") and any(self._is_log_axis):'),
    ("bad", F, 'if name in ("pdf", "cdf") and self._is_log_axis[i]:', 'if name in ("pdf", "cdf") and all(self._is_log_axis):'),
    ("bad", F, '        if data["coordinate_name"] == "pdf" or data["coordinate_name"] == "cdf":\n', '        if data["coordinate_name"] == "pdf":\n'),
    ("bad", F, '            if data["coordinate_type"] == "log_point":\n                raise', '            if data["coordinate_type"] == "log_regbin":\n                raise'),
    ("bad", F, "        self._log_mask = jnp.array(self._is_log_axis)\n\n        ndim", "        self._log_mask = jnp.array(self._is_log_axis[::-1])\n\n        ndim"),
    ("bad", F, "        self.coordinate_lowers = jnp.asarray(data[\"coordinate_lowers\"], dtype=float)\n", "        self.coordinate_lowers = jnp.asarray(data[\"coordinate_uppers\"], dtype=float)\n"),
    ("ok", F, PRE, '''        log_vals = jnp.log10(jnp.clip(pos, FLOAT_POS_MIN, FLOAT_POS_MAX))
        return jnp.where(self._log_mask, log_vals, pos)
'''),
    ("ok", F, PRE, '''        mask = self._log_mask
        safe = jnp.clip(jnp.where(mask, pos, 1.0), FLOAT_POS_MIN, FLOAT_POS_MAX)
        return jnp.where(jnp.logical_not(mask), pos, jnp.log10(safe))
'''),
    ("ok", F, PRE, PRE.replace("log10", "log")),
    ("ok", F, PRE, '''        return self._to_log(pos, self._log_mask)

    @staticmethod
    def _to_log(values, mask):
        guarded = jnp.maximum(jnp.where(mask, values, 1.0), FLOAT_POS_MIN)
        return jnp.where(mask, jnp.log10(guarded), values)
'''),
    ("ok", F, '            self._is_log_axis = [ct == "log_regbin" for ct in coordinate_type]\n', '            self._is_log_axis = [ct.startswith("log") for ct in coordinate_type]\n'),
    ("ok", F, '            self._is_log_axis = [ct == "log_regbin" for ct in coordinate_type]\n', '            flags = []\n            for ct in coordinate_type:\n                flags.append(ct == "log_regbin")\n            self._is_log_axis = flags\n'),
    ("ok", F, "            self._is_log_axis = [True] * ndim\n", "            self._is_log_axis = [True for _ in range(ndim)]\n"),
    ("ok", F, '        self._is_log_axis = ["log" in data["coordinate_type"]]\n', '        self._is_log_axis = [data["coordinate_type"] == "log_point"]\n'),
    ("ok", F, MV, "                    if is_log and a[i] <= 0:\n"),
    ("ok", F, MV, "                    if is_log and not jnp.all(a[i] > 0):\n"),
    ("ok", F, "        if not any(self._is_log_axis):\n            return\n", ""  "        if True not in self._is_log_axis:\n            return\n"),
    ("ok", F, 'if name in ("pdf", "cdf") and self._is_log_axis[i]:', 'if self._is_log_axis[i] and (name == "pdf" or name == "cdf"):'),
    ("ok", F, '            for i, name in enumerate(data["coordinate_name"]):\n                if name in ("pdf", "cdf") and self._is_log_axis[i]:', '            for name, is_log in zip(data["coordinate_name"], self._is_log_axis):\n                if is_log and name in ("pdf", "cdf"):'),
    ("ok", F, '        if data["coordinate_name"] == "pdf" or data["coordinate_name"] == "cdf":\n', '        if data["coordinate_name"] in ("pdf", "cdf"):\n'),
    ("ok", F, "        self._validate_log_coords(self.coordinate_lowers, self.coordinate_uppers)\n", "        for corner in (self.coordinate_lowers, self.coordinate_uppers):\n            self._validate_log_coords(corner)\n"),
    ("ok", F, '''        val = self.interpolator(
            self.preprocess(pos),
            self.preprocess(self.coordinate_lowers),
            self.preprocess(self.coordinate_uppers),
            self.map,
        )
        return val
''', '''        lowers, uppers = (self.preprocess(c) for c in (self.coordinate_lowers, self.coordinate_uppers))
        return self.interpolator(self.preprocess(pos), lowers, uppers, self.map)
'''),
]
