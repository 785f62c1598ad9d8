ER, D, R = ("appletree/components/er.py", "appletree/plugins/detector.py", "appletree/plugins/reconstruction.py")
PE, IR, IL = "appletree/parameters/er.json", "appletree/instructs/rn220.json", "appletree/instructs/literature_lyqy.json"
MF, MS = "appletree/maps/_efield_map.json", "appletree/maps/_nr_spectrum.json"
ENTRIES = [
    # components and plugins
    ("bad", ER, "        self.register_all(apt.plugins.detector)\n", ""),
    ("bad", ER, "        self.register(apt.plugins.common.PositionSpectra)\n", ""),
    ("bad", ER, "        self.register_all(apt.plugins.efficiency)\n", ""),
    ("bad", "appletree/components/nr.py", "apt.plugins.common.FixedEnergySpectra", "apt.plugins.common.UniformEnergySpectr"),
    ("bad", D, 'depends_on = ["x", "y"]\n    provides = ["s2_lce"]', 'depends_on = ["x", "y_rec"]\n    provides = ["s2_lce"]'),
    ("bad", D, 'provides = ["field"]', 'provides = ["efield"]'),
    ("bad", D, 'depends_on = ["x", "y"]\n    provides = ["s2_lce"]', 'depends_on = ["x", "y", "cs2"]\n    provides = ["s2_lce"]'),
    ("bad", D, 'parameters = ("field",)', 'parameters = ("drift_field",)'),
    ("bad", D, 'name="s1_lce",\n        default="_s1_correction.json"', 'name="s1_lce",\n        default="_s1_lce.json"'),
    ("bad", D, 'name="s1_lce",\n        default="_s1_correction.json"', 'name="s1_lce",\n        default="_s2_correction.json"'),
    ("bad", D, "jnp.stack([r, z]).T", "jnp.stack([z, r]).T"),
    ("bad", D, "jnp.stack([r, z]).T", "jnp.stack([r, z])"),
    ("bad", D, "jnp.stack([x, y, z]).T", "jnp.stack([x, y]).T"),
    ("bad", D, "jnp.stack([x, y]).T", "jnp.stack([y, x]).T"),
    ("bad", D, "jnp.stack([x, y]).T", "jnp.stack([x, y], axis=1).T"),
    ("bad", R, "jnp.stack([rec_x, rec_y, rec_z]).T", "jnp.stack([rec_y, rec_x, rec_z]).T"),
    ("bad", D, 'name="s2_lce",\n        default="_s2_correction.json"', 'name="s1_lce",\n        default="_s2_correction.json"'),
    # instructions
    ("bad", IR, '"rn220_er": "ERBand"', '"rn220_er": "ERBands"'),
    ("bad", IR, "data_Rn220.csv", "data_Rn222.csv"),
    ("bad", IR, "AC_Rn220.pkl", "AC_Rn222.pkl"),
    ("bad", IR, "er.json", "nr_low.json"),
    ("bad", IR, '            "x_clip": [0, 100],\n', ''),
    ("bad", IR, '"x_clip": [0, 100]', '"x_clip": [100, 0]'),
    ("bad", IR, '"elife":             "_elife.json"', '"elife":             "_efield_map.json"'),
    ("bad", IR, '"elife":             "_elife.json"', '"elife":             "_elife_map.json"'),
    ("bad", IL, '            "qy_lenardo_2019": 0.0,\n', ''),
    # parameters
    ("bad", PE, '    "fano": {', '    "fano_factor": {'),
    ("bad", PE, '    "fano": {', '    "unneeded": {"prior_type": "fixed", "prior_args": {"val": 1.0}},\n    "fano": {'),
    ("bad", PE, '"prior_type": "norm"', '"prior_type": "normal"'),
    ("bad", PE, '            "std": 0.0002\n', '            "sigma": 0.0002\n'),
    ("bad", PE, '            "std": 0.0002\n', '            "std": -0.0002\n'),
    ("bad", PE, '            0,\n            1.0\n', '            1.0,\n            0\n'),
    ("bad", PE, '"init_mean": 0.0137', '"init_mean": 13.7'),
    # maps
    ("bad", MF, '"coordinate_lowers": [0, -148.65]', '"coordinate_lowers": [0]'),
    ("bad", MF, '"coordinate_uppers": [66.4, 0]', '"coordinate_uppers": [66.4, -150]'),
    ("bad", MF, '"coordinate_name": ["r", "z"]', '"coordinate_name": ["z", "r"]'),
    ("bad", MF, '[[23.0, 23.0, 23.0, 23.0, 23.0],', '[[23.0, 23.0, 23.0, 23.0],'),
    ("bad", MS, '"coordinate_system": [0.0, ', '"coordinate_system": ['),
    ("bad", MS, '[0.0, 0.008674250513574166,', '[0.0, 0.908674250513574166,'),
    # rewrites
    ("ok", D, "jnp.stack([r, z]).T", "jnp.stack((r, z), axis=-1)"),
    ("ok", D, "jnp.stack([x, y, z]).T", "jnp.transpose(jnp.stack([x, y, z]))"),
    ("ok", D, "jnp.stack([x, y]).T", "jnp.column_stack([x, y])"),
    ("ok", D, "        r = jnp.sqrt(x**2 + y**2)\n        pos_true = jnp.stack([r, z]).T", "        pos_true = jnp.stack([jnp.hypot(x, y), z]).T"),
    ("ok", D, 'depends_on = ["x", "y", "z"]\n    provides = ["field"]', 'depends_on = ("x", "y", "z")\n    provides = ("field",)'),
    ("ok", ER, "        self.register_all(apt.plugins.er_microphys)\n        self.register_all(apt.plugins.detector)\n",
     "        self.register_all([apt.plugins.er_microphys, apt.plugins.detector])\n"),
    ("ok", ER, "        self.register_all(apt.plugins.er_microphys)\n        self.register_all(apt.plugins.detector)\n",
     "        for module in (apt.plugins.detector, apt.plugins.er_microphys):\n            self.register_all(module)\n"),
    ("ok", ER, "        self.register(apt.plugins.common.UniformEnergySpectra)\n        self.register(apt.plugins.common.PositionSpectra)\n",
     "        self.register(apt.plugins.common.PositionSpectra)\n        self.register(apt.plugins.common.UniformEnergySpectra)\n"),
    ("ok", PE, '"init_mean": 0.0137', '"init_mean": 0.0138'),
    ("ok", IR, '"bins_on": ["cs1", "cs2"],\n            "bins": [15, 15],', '"bins": [15, 15],\n            "bins_on": ["cs1", "cs2"],'),
    ("ok", MF, '[[23.0, ', '[[23.5, '),
]
