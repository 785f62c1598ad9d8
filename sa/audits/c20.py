K = "appletree/likelihood.py"
C = "appletree/component.py"
G = "appletree/config.py"
P = "appletree/parameter.py"
X = "appletree/context.py"
U = "appletree/utils.py"
S = "appletree/share.py"
ENTRIES = [
    ("bad", K, '        elif self._bins_type == "irreg":\n            self._bins', '        else:\n            self._bins') if False else
    ("bad", K, "        if self._dim not in (1, 2):\n            raise", "        if self._dim not in (1, 2, 3):\n            raise"),
    ("bad", K, '''        else:
            raise ValueError("'bins_type' should either be meshgrid, equiprob or irreg")
''', '''        else:
            self._bins = self._resolve_explicit_bins(config)
            self._make_data_hist()
'''),
    ("bad", K, "            if not all(isinstance(b, int) for b in self._bins):\n                raise RuntimeError(\"bins can only be int if bins_type is equiprob\")\n", ""),
    ("bad", C, '''        else:
            raise ValueError(f"Unsupported bins_type {self.bins_type}!")
        if''', '''        else:
            hist = make_hist_mesh_grid(mc, bins=self.bins, weights=eff)
        if'''),
    ("bad", C, 'elif self.bins_type == "meshgrid":\n            hist', 'elif self.bins_type != "irreg":\n            hist'),
    ("bad", C, 'if self.bins_type not in ["irreg", "meshgrid", None]:', 'if self.bins_type not in ["irreg", "meshgrid", "equiprob", None]:'),
    ("bad", C, '''            raise ValueError(f"Unsupported bins_type {self.bins_type}!")

        if''', '''            warn(f"Unsupported bins_type {self.bins_type}!")

        if'''),
    ("bad", C, '''        elif self.norm_type == "on_sim":
            if''', '''        elif self.norm_type != "on_pdf":
            if'''),
    ("bad", C, '''        else:
            raise ValueError(f"Unsupported norm_type {self.norm_type}!")
''', '''        else:
            normalization_factor = 1.0
'''),
    ("bad", C, '''            elif len(self.bins) == 2:
                hist''', '''            else:
                hist'''.replace("else:", "elif len(self.bins) >= 2:")),
    ("bad", P, '''            else:
                raise ValueError(f"Unsupported prior_type {prior_type} of parameter {par_name}!")
''', ""),
    ("bad", P, '            elif prior_type == "fixed":\n                self._parameter_dict[par_name] = args["val"]\n            else:\n                raise', '            elif prior_type != "":\n                self._parameter_dict[par_name] = args["val"]\n            else:\n                raise'),
    ("bad", X, '        elif which == "median":', '        elif which != "mean":'),
    ("bad", X, "            raise ValueError(f\"which should be 'mpe', 'random' or 'median', got {which}!\")", "            warn(which)\n            parameters = self.par_manager.parameter_fit_array"),
    ("bad", G, '        elif coordinate_type == "regbin" or coordinate_type == "log_regbin":\n', '        elif "regbin" in coordinate_type or coordinate_type:\n'),
    ("bad", G, 'if ct not in ("regbin", "log_regbin"):', 'if ct not in ("regbin", "log_regbin", "point"):'),
    ("bad", G, '            for ct in coordinate_type:\n', '            for ct in coordinate_type[:2]:\n'),
    ("bad", G, '            for ct in coordinate_type:\n', '            for ct in coordinate_type[1:]:\n'),
    ("bad", G, '''        if self.method not in self._POINT_INTERPOLATORS:
            raise ValueError(f"Unknown method {self.method} for point interpolation.")
        self.interpolator = self._POINT_INTERPOLATORS[self.method]
''', '''        self.interpolator = self._POINT_INTERPOLATORS.get(
            self.method, interpolation.curve_interpolator
        )
'''),
    ("bad", G, '''        try:
            return self._REGBIN_INTERPOLATORS[key]
        except KeyError:
            raise ValueError(f"Unknown method {self.method} " f"for {ndim}D regular binning.")
''', '''        return self._REGBIN_INTERPOLATORS.get(key, self._REGBIN_INTERPOLATORS[(2, "LERP")])
'''),
    ("bad", K, '''            raise RuntimeError("Currently only twohalfnorm, norm and band are supported")
        if self._dim != 2:
            raise AssertionError(self.warning)''', '''            raise RuntimeError("Currently only twohalfnorm, norm and band are supported")
        if self._dim > 2:
            raise AssertionError(self.warning)'''),
    ("bad", U, '''    elif fmt == "pkl":
        data = pd.read_pickle(file_name)
    else:
        raise ValueError(f"unsupported file format {fmt}!")
''', '''    else:
        data = pd.read_pickle(file_name)
'''),
    ("bad", U, '''    elif fmt == "pkl":
''', '''    elif fmt in ("pkl", "txt"):
'''),
    ("bad", S, '''            _cached_configs.update({k: file_path_dict})
        else:
            raise NotImplementedError
''', '''            _cached_configs.update({k: file_path_dict})
'''),
    ("bad", S, '''                else:
                    raise NotImplementedError
''', ''),
    ("bad", S, '''                else:
                    raise NotImplementedError
''', '''                else:
                    file_path_dict[kk] = vv
'''),
    ("bad", P, '''        else:
            raise RuntimeError("Parameter configuration should be file name or dictionary")
''', '''        else:
            self.par_config = dict(parameter_config)
'''),
    ("bad", C, '''        if not isinstance(data_names, (list, tuple)):
            raise ValueError(f"Unsupported data_names type {type(data_names)}!")
''', ''),
    ("bad", G, '''        if isinstance(self.default, dict):
            raise ValueError(
                f"Do not set {self.name}'s default value as dict!",
            )
''', ''),
    ("ok", K, '        if self._dim not in (1, 2):\n', '        if not 1 <= self._dim <= 2:\n'),
    ("ok", X, '''            raise ValueError(f"which should be 'mpe', 'random' or 'median', got {which}!")
''', '''            message = "unsupported " + which
            raise ValueError(message)
'''),
    ("ok", C, '''        else:
            raise ValueError(f"Unsupported norm_type {self.norm_type}!")
        return normalization_factor''', '''        else:
            self._unsupported("norm_type", self.norm_type)
        return normalization_factor

    def _unsupported(self, what, value):
        raise ValueError(f"Unsupported {what} {value}!")'''),
    ("ok", U, '''    fmt = file_name.split(".")[-1]
    if fmt == "csv":
        data = pd.read_csv(file_name)
    elif fmt == "pkl":
        data = pd.read_pickle(file_name)
    else:
        raise ValueError(f"unsupported file format {fmt}!")
    return data
''', '''    fmt = file_name.rsplit(".", 1)[-1]
    readers = {"csv": pd.read_csv, "pkl": pd.read_pickle}
    if fmt not in readers:
        raise ValueError(f"unsupported file format {fmt}!")
    return readers[fmt](file_name)
'''),
    ("ok", U, '''    fmt = file_name.split(".")[-1]
    if fmt == "csv":
        data = pd.read_csv(file_name)
    elif fmt == "pkl":
        data = pd.read_pickle(file_name)
    else:
        raise ValueError(f"unsupported file format {fmt}!")
    return data
''', '''    readers = {"csv": pd.read_csv, "pkl": pd.read_pickle}
    try:
        reader = readers[file_name.split(".")[-1]]
    except KeyError:
        raise ValueError(f"unsupported file format of {file_name}!")
    return reader(file_name)
'''),
    ("ok", G, '        elif coordinate_type == "point" or coordinate_type == "log_point":', '        elif coordinate_type in ("point", "log_point"):'),
    ("ok", G, '''            for ct in coordinate_type:
                if ct not in ("regbin", "log_regbin"):
''', '''            allowed = {"regbin", "log_regbin"}
            for ct in coordinate_type:
                if not ct in allowed:
'''),
    ("ok", C, 'if self.bins_type not in ["irreg", "meshgrid", None]:', 'if not (self.bins_type is None or self.bins_type in ("irreg", "meshgrid")):'),
    ("ok", S, '''        if isinstance(v, (float, int, list)):
            _cached_configs.update({k: v})
''', '''        if isinstance(v, float) or isinstance(v, (int, list)):
            _cached_configs.update({k: v})
'''),
    ("ok", G, '''        if self.method not in self._POINT_INTERPOLATORS:
            raise ValueError(f"Unknown method {self.method} for point interpolation.")
        self.interpolator = self._POINT_INTERPOLATORS[self.method]
''', '''        interpolator = self._POINT_INTERPOLATORS.get(self.method)
        if interpolator is None:
            raise ValueError(f"Unknown method {self.method} for point interpolation.")
        self.interpolator = interpolator
'''),
]
