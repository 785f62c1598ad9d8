F, K = "appletree/interpolation.py", "appletree/config.py"
SUM2 = "    val = val1 / dr1 + val2 / dr2 + val3 / dr3 + val4 / dr4\n    val /= 1.0 / dr1 + 1.0 / dr2 + 1.0 / dr3 + 1.0 / dr4\n"
BI = "    return (1 - t) * (1 - u) * v00 + t * (1 - u) * v10 + (1 - t) * u * v01 + t * u * v11"
CU = '''    val = jnp.where(
        (dist_right + dist_left) > 0,
        (val_right * dist_left + val_left * dist_right) / (dist_right + dist_left),
        val_right,
    )
'''
ENTRIES = [
    ("bad", F, SUM2, SUM2.replace("val2 / dr2 + val3 / dr3", "val2 / dr3 + val3 / dr2")),
    ("bad", F, SUM2, SUM2.replace("1.0 / dr3 + 1.0 / dr4", "1.0 / dr3")),
    ("bad", F, SUM2, SUM2.replace("val /= 1.0 / dr1", "val /= 2.0 / dr1")),
    ("bad", F, SUM2, "    val = (val1 * dr1 + val2 * dr2 + val3 * dr3 + val4 * dr4) / (dr1 + dr2 + dr3 + dr4)\n"),
    ("bad", F, "ind4 = ind2.at[:, 1].add(1)", "ind4 = ind1.at[:, 1].add(1)"),
    ("bad", F, "ind3 = ind1.at[:, 1].add(1)", "ind3 = ind1.at[:, 1].add(2)"),
    ("bad", F, "ind8 = ind7.at[:, 1].add(1)", "ind8 = ind6.at[:, 1].add(1)"),
    ("bad", F, "ind6 = ind3.at[:, 2].add(1)", "ind6 = ind3.at[:, 2].add(-1)"),
    ("bad", F, "val3 = ref_val[ind3[:, 0], ind3[:, 1]]", "val3 = ref_val[ind3[:, 1], ind3[:, 0]]"),
    ("bad", F, "    ref_pos3 = ref_pos_lowers + bin_sizes * ind3\n", "    ref_pos3 = ref_pos_lowers + bin_sizes * ind2\n"),
    ("bad", F, "    bin_sizes = (ref_pos_uppers - ref_pos_lowers) / (num_bins - 1)\n", "    bin_sizes = (ref_pos_uppers - ref_pos_lowers) / num_bins\n"),
    ("bad", F, "    ind1 = jnp.clip(ind1, 0, num_bins - 1)\n", ""),
    ("bad", F, "    ind1 = jnp.floor((pos - ref_pos_lowers) / bin_sizes)\n", "    ind1 = jnp.floor((pos - ref_pos_uppers) / bin_sizes)\n"),
    ("bad", F, "    dr1 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos1 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)\n",
     "    dr1 = jnp.sqrt(jnp.sum((ref_pos1 - pos) ** 2, axis=-1))\n"),
    ("bad", F, "FLOAT_POS_MIN = jnp.finfo(jnp.float32).tiny", "FLOAT_POS_MIN = 0.0"),
    ("bad", F, BI, BI.replace("t * (1 - u) * v10 + (1 - t) * u * v01", "t * (1 - u) * v01 + (1 - t) * u * v10")),
    ("bad", F, BI, BI.replace("(1 - t) * (1 - u) * v00", "(1 - t) * u * v00")),
    ("bad", F, "t = jnp.clip(frac[:, 0] - i0, 0.0, 1.0)", "t = frac[:, 0] - i0"),
    ("bad", F, "u = jnp.clip(frac[:, 1] - j0, 0.0, 1.0)", "u = jnp.clip(frac[:, 0] - i0, 0.0, 1.0)"),
    ("bad", F, "i0 = jnp.clip(jnp.floor(frac[:, 0]).astype(int), 0, num_bins[0] - 2)", "i0 = jnp.floor(frac[:, 0]).astype(int)"),
    ("bad", F, "j0 = jnp.clip(jnp.floor(frac[:, 1]).astype(int), 0, num_bins[1] - 2)", "j0 = jnp.clip(jnp.floor(frac[:, 0]).astype(int), 0, num_bins[1] - 2)"),
    ("bad", F, "v01 = ref_val[i0, j0 + 1]", "v01 = ref_val[i0, j0 - 1]"),
    ("bad", F, "c10 = (1 - t) * v010 + t * v110", "c10 = (1 - t) * v010 + t * v011"),
    ("bad", F, "c1 = (1 - u) * c01 + u * c11", "c1 = (1 - u) * c01 + t * c11"),
    ("bad", F, "return (1 - w) * c0 + w * c1", "return (1 - w) * c1 + w * c0"),
    ("bad", F, "v101 = ref_val[i0 + 1, j0, k0 + 1]", "v101 = ref_val[i0 + 1, j0 + 1, k0]"),
    ("bad", F, CU, CU.replace("(val_right * dist_left + val_left * dist_right)", "(val_right * dist_right + val_left * dist_left)")),
    ("bad", F, CU, "    val = (val_right * dist_left + val_left * dist_right) / (dist_right + dist_left)\n"),
    ("bad", F, "    left = jnp.clip(left, 0, len(ref_pos) - 1)\n", ""),
    ("bad", F, "    left = right - 1\n", "    left = right - 2\n"),
    ("bad", F, "dist_left = jnp.abs(pos - ref_pos[left])", "dist_left = jnp.abs(pos - ref_pos[left - 1])"),
    ("bad", F, "indices = jnp.argmin(differences, axis=1)", "indices = jnp.argmax(differences, axis=1)"),
    ("bad", F, "differences = jnp.abs(x - y)", "differences = x - y"),
    ("bad", F, "val = ref_val[ind0, ind1]", "val = ref_val[ind1, ind0]"),
    ("bad", F, "bins1 = jnp.linspace(ref_pos_lowers[1], ref_pos_uppers[1], n1)", "bins1 = jnp.linspace(ref_pos_lowers[1], ref_pos_uppers[1], n0)"),
    ("bad", F, "ind1 = find_nearest_indices(pos[:, 1], bins1)", "ind1 = find_nearest_indices(pos[:, 0], bins1)"),
    ("bad", F, "return jnp.interp(pos, ref_pos, ref_val)", "return jnp.interp(pos, ref_pos, ref_val, left=0.0, right=0.0)"),
    ("bad", F, "jnp.linspace(ref_pos_lowers[0], ref_pos_uppers[0], len(ref_val))\n    val = curve", "jnp.linspace(ref_pos_lowers[0], ref_pos_uppers[0], len(ref_val) + 1)\n    val = curve"),
    ("bad", F, "val = jnp.sum(val * weights, axis=1) / jnp.sum(weights, axis=1)", "val = jnp.sum(val * weights, axis=1) / jnp.sum(weights**2, axis=1)"),
    ("bad", F, "    dr2 = -_L2_dist2(pos, ref_pos)\n", "    dr2 = _L2_dist2(pos, ref_pos)\n"),
    ("bad", K, '(2, "NN"): interpolation.map_interpolator_regular_binning_nearest_neighbor_2d', '(2, "NN"): interpolation.map_interpolator_regular_binning_bilinear_2d'),
    ("bad", K, '"NN": interpolation.map_interpolator_nearest_neighbor_1d', '"NN": interpolation.map_interpolator_linear_1d'),
    ("ok", F, SUM2, '''    w1, w2, w3, w4 = 1.0 / dr1, 1.0 / dr2, 1.0 / dr3, 1.0 / dr4
    val = (w1 * val1 + w2 * val2 + w3 * val3 + w4 * val4) / (w1 + w2 + w3 + w4)
'''),
    ("ok", F, "    ref_pos3 = ref_pos_lowers + bin_sizes * ind3\n", "    ref_pos3 = ind3 * bin_sizes + ref_pos_lowers\n"),
    ("ok", F, "ind4 = ind2.at[:, 1].add(1)", "ind4 = ind3.at[:, 0].add(1)"),
    ("ok", F, "    dr1 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos1 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)\n",
     "    dr1 = jnp.maximum(jnp.sqrt(jnp.sum(jnp.square(pos - ref_pos1), axis=1)), FLOAT_POS_MIN)\n"),
    ("ok", F, BI, "    lower = (1 - t) * v00 + t * v10\n    upper = (1 - t) * v01 + t * v11\n    return lower + u * (upper - lower)"),
    ("ok", F, "    frac = (pos - ref_pos_lowers) / bin_sizes\n", "    frac = (pos - ref_pos_lowers) * (num_bins - 1) / (ref_pos_uppers - ref_pos_lowers)\n"),
    ("ok", F, "v11 = ref_val[i0 + 1, j0 + 1]", "i1 = i0 + 1\n    j1 = j0 + 1\n    v11 = ref_val[i1, j1]"),
    ("ok", F, "num_bins[0] - 2)", "num_bins[0] - 1)"),
    ("ok", F, "i0 = jnp.clip(jnp.floor(frac[:, 0]).astype(int), 0, num_bins[0] - 2)", "i0 = jnp.clip(jnp.floor(frac[:, 0]), 0, num_bins[0] - 2).astype(int)"),
    ("ok", F, "    i0 = jnp.clip(jnp.floor(frac[:, 0]).astype(int), 0, num_bins[0] - 2)\n    j0 = jnp.clip(jnp.floor(frac[:, 1]).astype(int), 0, num_bins[1] - 2)\n",
     "    ij = jnp.clip(jnp.floor(frac).astype(int), 0, num_bins - 2)\n    i0, j0 = ij[:, 0], ij[:, 1]\n"),
    ("ok", F, CU, '''    total = dist_left + dist_right
    val = jnp.where(total == 0, val_left, (val_left * dist_right + val_right * dist_left) / total)
'''),
    ("ok", F, CU, '''    total = dist_left + dist_right
    safe = jnp.where(total > 0, total, 1.0)
    weight = jnp.where(total > 0, dist_left / safe, 0.0)
    val = val_left + weight * (val_right - val_left)
'''),
    ("ok", F, "    right = jnp.clip(right, 0, len(ref_pos) - 1)\n", "    right = jnp.minimum(right, len(ref_pos) - 1)\n"),
    ("ok", F, "    left = jnp.clip(left, 0, len(ref_pos) - 1)\n", "    left = jnp.maximum(left, 0)\n"),
    ("ok", F, "differences = jnp.abs(x - y)", "differences = (y - x) ** 2"),
    ("ok", F, "    val = ref_val[ind0, ind1]\n", "    nodes = (ind0, ind1)\n    val = ref_val[nodes]\n"),
    ("ok", K, '''        key = (ndim, self.method)
        try:
            return self._REGBIN_INTERPOLATORS[key]
        except KeyError:
''', '''        key = (ndim, self.method)
        if key in self._REGBIN_INTERPOLATORS:
            return self._REGBIN_INTERPOLATORS[key]
        else:
'''),
    ("ok", F, "weights = 1.0 / jnp.clip(jnp.sqrt(-dr2), 1e-6, float(\"inf\"))", "distance = jnp.sqrt(-dr2)\n    weights = 1.0 / jnp.maximum(distance, 1e-6)"),
]
