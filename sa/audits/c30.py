P = "appletree/plugins/common.py"
N = "appletree/plugins/nestv2.py"
D = "appletree/plugins/detector.py"
U = "appletree/utils.py"
G = "appletree/config.py"
PDF = "            x, cdf = self.pdf_to_cdf(data[\"coordinate_system\"], data[\"map\"])\n"
SET = '            data["coordinate_system"] = cdf\n            data["map"] = x\n'
ENTRIES = [
    ("bad", U, "    y_mid = 0.5 * (y[1:] + y[:-1])\n", "    y_mid = y[:-1]\n"),
    ("bad", U, "    x_mid = 0.5 * (x[1:] + x[:-1])\n", "    x_mid = x[1:] - x[:-1]\n"),
    ("bad", U, "    return x_mid, np.cumsum(dx * y_mid)\n", "    return x_mid, np.cumsum(y_mid) * dx.mean()\n"),
    ("bad", U, "    return x_mid, np.cumsum(dx * y_mid)\n", "    return x[:-1], np.cumsum(dx * y_mid)\n"),
    ("bad", U, "    return res[-1]\n", "    return res[0]\n"),
    ("bad", G, "        cdf /= norm\n", ""),
    ("bad", G, "        norm = integrate_midpoint(x, pdf)\n", "        norm = np.sum(pdf)\n"),
    ("bad", G, SET, '            data["coordinate_system"] = x\n            data["map"] = cdf\n'),
    ("bad", G, SET, '            data["map"] = x\n'),
    ("bad", G, PDF, '            x, cdf = self.pdf_to_cdf(data["map"], data["coordinate_system"])\n'),
    ("bad", G, '        if data["coordinate_name"] == "pdf":\n            warn', '        if data["coordinate_name"] in ("pdf", "cdf"):\n            warn'),
    ("bad", P, "            self.lower_energy.value,\n            self.upper_energy.value,\n", "            0.0,\n            self.upper_energy.value,\n"),
    ("bad", P, "            self.upper_energy.value,\n            shape=(batch_size,),\n", "            self.upper_energy.value,\n            shape=(1,),\n"),
    ("bad", P, "randgen.uniform(key, 0, 1.0, shape=(batch_size,))", "randgen.uniform(key, 0, 0.5, shape=(batch_size,))"),
    ("bad", P, "randgen.uniform(key, 0, 1.0, shape=(batch_size,))", "randgen.normal(key, 0.5, 0.2, shape=(batch_size,))"),
    ("bad", P, "        energy = self.energy_spectrum.apply(p)\n", "        energy = self.energy_spectrum.apply(p**2)\n"),
    ("bad", P, "self.r_max.value**2, shape", "self.r_max.value, shape"),
    ("bad", P, "        r = jnp.sqrt(r2)\n", "        r = r2 / self.r_max.value\n"),
    ("bad", P, "2 * jnp.pi, shape", "jnp.pi, shape"),
    ("bad", P, "        y = r * jnp.sin(theta)\n", "        y = r * jnp.cos(theta)\n"),
    ("bad", P, "self.z_min.value, self.z_max.value, shape", "self.z_min.value, 0.0, shape"),
    ("bad", P, "        x = r * jnp.cos(theta)\n", "        x = self.r_max.value * jnp.cos(theta)\n"),
    ("bad", P, "jnp.full(batch_size, self.mono_energy.value)", "jnp.full(batch_size, 2.82)"),
    ("bad", N, '            self.energy_twohalfnorm.value["mu"], jnp.shape', '            self.energy_twohalfnorm.value["sigma_pos"], jnp.shape'),
    ("bad", N, "            shape=(batch_size, self.energy_twohalfnorm.set_volume),\n", ""),
    ("bad", N, "            self.clip_lower_energy.value,\n            self.clip_upper_energy.value,\n            shape", "            self.clip_lower_energy.value,\n            2 * self.clip_upper_energy.value,\n            shape"),
    ("bad", D, "randgen.uniform(key, 0, 1.0, shape=jnp.shape(z))", "randgen.uniform(key, 0, 1.0, shape=(1,))"),
    ("bad", D, "        lifetime = self.elife.apply(p)", "        lifetime = self.elife.apply(z)"),
    ("ok", U, "    dx = x[1:] - x[:-1]\n", "    dx = np.diff(x)\n"),
    ("ok", U, "    y_mid = 0.5 * (y[1:] + y[:-1])\n", "    y_mid = y[:-1] + 0.5 * np.diff(y)\n"),
    ("ok", U, "    return x_mid, np.cumsum(dx * y_mid)\n", "    area = dx * y_mid\n    return x_mid, area.cumsum()\n"),
    ("ok", U, "    _, res = cumulative_integrate_midpoint(x, y)\n    return res[-1]\n", "    return np.sum(np.diff(np.array(x)) * 0.5 * (np.array(y)[1:] + np.array(y)[:-1]))\n"),
    ("ok", G, "        norm = integrate_midpoint(x, pdf)\n        x, cdf = cumulative_integrate_midpoint(x, pdf)\n        cdf /= norm\n        return x, cdf\n",
     "        mid, total = cumulative_integrate_midpoint(x, pdf)\n        return mid, total / total[-1]\n"),
    ("ok", G, PDF + '            data["coordinate_name"] = "cdf"\n' + SET,
     '            energies, probability = self.pdf_to_cdf(data["coordinate_system"], data["map"])\n            data.update(coordinate_name="cdf", coordinate_system=probability, map=energies)\n'),
    ("ok", P, "        key, r2 = randgen.uniform(key, 0, self.r_max.value**2, shape=(batch_size,))\n", "        key, u = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))\n        r2 = u * self.r_max.value**2\n"),
    ("ok", P, "        r = jnp.sqrt(r2)\n", "        r = r2**0.5\n"),
    ("ok", P, "randgen.uniform(key, 0, 2 * jnp.pi, shape=(batch_size,))", "randgen.uniform(key, -jnp.pi, jnp.pi, shape=(batch_size,))"),
    ("ok", P, "jnp.full(batch_size, self.mono_energy.value)", "self.mono_energy.value * jnp.ones(batch_size)"),
    ("ok", P, "        energy = self.energy_spectrum.apply(p)\n", "        energy = self.energy_spectrum.apply(1.0 - p)\n"),
    ("ok", P, "            self.lower_energy.value,\n            self.upper_energy.value,\n            shape=(batch_size,),\n        )\n", "            vmin=self.lower_energy.value,\n            vmax=self.upper_energy.value,\n            shape=(batch_size,),\n        )\n        energy = energy + 0.0\n"),
]
