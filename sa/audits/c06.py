X = "appletree/component.py"
APP = '''                dependencies.append(
                    {
                        "plugin": self._plugin_class_registry[data_name],
                        "provides": data_name,
                        "depends_on": self._plugin_class_registry[data_name].depends_on,
                    }
                )
'''
LOOPS = '''        for data_name in data_names:
            # usually `batch_size` have no dependency
            if data_name == nodep_data_name:
                continue
            try:
''' + APP + '''            except KeyError:
                raise ValueError(f"Can not find dependency for {data_name}")

        for data_name in data_names:
            # `batch_size` has no dependency
            if data_name == nodep_data_name:
                continue
            dependencies = self.dependencies_deduce(
                data_names=self._plugin_class_registry[data_name].depends_on,
                dependencies=dependencies,
                nodep_data_name=nodep_data_name,
            )
'''
SIMP = '''        for _plugin in dependencies[::-1]:
            plugin = _plugin["plugin"]
            if plugin.__name__ in already_seen:
                continue
            self.worksheet.append([plugin.__name__, plugin.provides, plugin.depends_on])
            already_seen.append(plugin.__name__)
'''
BIND = '''            provides = "key, " + ", ".join(
                data_name if self._plugin_class_registry[data_name].__name__ == work[0] else "_"
                for data_name in work[1]
            )
'''
CALL = '''            depends_on = ", ".join(work[2])
            instance = work[0] + "_" + self.name
            code += f"{indent}{provides} = {instance}(key, parameters, {depends_on})\\n"
'''
ENTRIES = [
    # walk
    ("bad", X, LOOPS, LOOPS.replace("            try:\n", "            if any(data_name == d[\"provides\"] for d in dependencies):\n                continue\n            try:\n", 1)
     .replace("if any(data_name == d[\"provides\"] for d in dependencies)", "if data_name in [d[\"provides\"] for d in dependencies]")),
    ("bad", X, "                raise ValueError(f\"Can not find dependency for {data_name}\")\n", "                continue\n"),
    ("bad", X, "                dependencies=dependencies,\n                nodep_data_name=nodep_data_name,\n", "                dependencies=dependencies,\n"),
    ("bad", X, "                data_names=self._plugin_class_registry[data_name].depends_on,\n", "                data_names=self._plugin_class_registry[data_name].provides,\n"),
    ("bad", X, "            # `batch_size` has no dependency\n            if data_name == nodep_data_name:\n                continue\n",
     "            if data_name == nodep_data_name or data_name in [d[\"provides\"] for d in dependencies[:-1]]:\n                continue\n"),
    # order
    ("bad", X, "for _plugin in dependencies[::-1]:", "for _plugin in dependencies:"),
    ("bad", X, "for _plugin in dependencies[::-1]:", "for _plugin in sorted(dependencies, key=lambda d: d['provides']):"),
    ("bad", X, LOOPS, '''        for data_name in data_names:
            if data_name == nodep_data_name:
                continue
            dependencies = self.dependencies_deduce(
                data_names=self._plugin_class_registry[data_name].depends_on,
                dependencies=dependencies,
                nodep_data_name=nodep_data_name,
            )
''' + APP.replace("                    ", "                  ").replace("                dependencies", "            dependencies").replace("                )", "            )")),
    # once
    ("bad", X, '''            if plugin.__name__ in already_seen:
                continue
''', ""),
    ("bad", X, "            if plugin.__name__ in already_seen:\n                continue\n            self.worksheet",
     "            if _plugin[\"provides\"] in already_seen:\n                continue\n            self.worksheet"),
    ("bad", X, "            already_seen.append(plugin.__name__)\n            self.needed", "            already_seen.append(_plugin[\"provides\"])\n            self.needed"),
    ("bad", X, "[plugin.__name__, plugin.provides, plugin.depends_on]", "[plugin.__name__, _plugin[\"provides\"], plugin.depends_on]"),
    ("bad", X, "[plugin.__name__, plugin.provides, plugin.depends_on]", "[plugin.__name__, plugin.depends_on, plugin.provides]"),
    # register
    ("bad", X, "            self._plugin_class_registry[p] = plugin_class\n", "            self._plugin_class_registry.setdefault(p, plugin_class)\n"),
    ("bad", X, "            self._plugin_class_registry[p] = plugin_class\n", "            if p not in self._plugin_class_registry:\n                self._plugin_class_registry[p] = plugin_class\n"),
    # code
    ("bad", X, BIND, '            provides = "key, " + ", ".join(work[1])\n'),
    ("bad", X, BIND, '            provides = "_, " + ", ".join(work[1])\n'),
    ("bad", X, BIND, BIND.replace("in work[1]", "in sorted(work[1])")),
    ("bad", X, BIND, BIND.replace("==", "!=")),
    ("bad", X, CALL, CALL.replace("(key, parameters, {depends_on})", "(parameters, key, {depends_on})")),
    ("bad", X, CALL, CALL.replace('", ".join(work[2])', '", ".join(set(work[2]))')),
    ("bad", X, CALL, CALL.replace('", ".join(work[2])', '", ".join(work[1])')),
    ("bad", X, CALL, CALL.replace("{depends_on})", "{depends_on}")),
    ("bad", X, '"@partial(jit, static_argnums=(1, ))\\n"', '"@partial(jit, static_argnums=(0, ))\\n"'),
    ("bad", X, '"@jit\\n"', '"@partial(jit, static_argnums=(1, ))\\n"'),
    ("bad", X, 'output = "key, " + "[" + ", ".join(data_names) + "]"', 'output = "key, " + "[" + ", ".join(sorted(data_names)) + "]"'),
    ("bad", X, 'output = "key, " + "["', 'output = "_, " + "["'),
    ("bad", X, "{plugin}('{self.llh_name}')", "{plugin}('{self.name}')"),
    ("bad", X, "{plugin}('{self.llh_name}')", "{plugin}()"),
    ("bad", X, '        for work in self.worksheet:\n            plugin = work[0]\n            instance =', '        for work in self.worksheet[1:]:\n            plugin = work[0]\n            instance ='),
    ("bad", X, '        for work in self.worksheet:\n' + '            # outputs superseded', '        for work in self.worksheet[::-1]:\n            # outputs superseded'),
    # deduce
    ("bad", X, '        if "eff" in data_names:\n            data_names.remove("eff")\n', ""),
    ("bad", X, '            data_names += ["eff"]\n', '            data_names = ["eff"] + data_names\n'),
    ("bad", X, "        data_names = list(data_names)\n", "        data_names = list(set(data_names))\n"),
    ("bad", X, "self.flush_source_code(data_names, func_name, nodep_data_name)", "self.flush_source_code(data_names, func_name)"),
    ("bad", X, "self.dependencies_deduce(data_names, nodep_data_name=nodep_data_name)", "self.dependencies_deduce(data_names)"),
    ("bad", X, "self.simulate = _cached_functions[self.llh_name][self.func_name]", "self.simulate = _cached_functions[self.llh_name]['simulate']"),
    # behaviour preserving
    ("ok", X, "for _plugin in dependencies[::-1]:", "for _plugin in reversed(dependencies):"),
    ("ok", X, LOOPS, '''        for data_name in data_names:
            if data_name != nodep_data_name:
                if data_name not in self._plugin_class_registry:
                    raise ValueError(f"Can not find dependency for {data_name}")
                provider = self._plugin_class_registry[data_name]
                dependencies.append(dict(plugin=provider, provides=data_name, depends_on=provider.depends_on))

        for name in data_names:
            if name != nodep_data_name:
                provider = self._plugin_class_registry[name]
                dependencies = self.dependencies_deduce(provider.depends_on, dependencies, nodep_data_name)
'''),
    ("ok", X, SIMP, '''        for _plugin in dependencies[::-1]:
            plugin = _plugin["plugin"]
            plugin_name = plugin.__name__
            if plugin_name not in already_seen:
                already_seen.append(plugin_name)
                self.worksheet.append([plugin_name, plugin.provides, plugin.depends_on])
            else:
                continue
'''),
    ("ok", X, CALL, '''            arguments = ", ".join(work[2])
            name = f"{work[0]}_{self.name}"
            code += indent + provides + " = " + name + "(key, parameters, " + arguments + ")\\n"
'''),
    ("ok", X, "        for work in self.worksheet:\n            plugin = work[0]\n            code += f\"from appletree.plugins import {plugin}\\n\"\n",
     "        for plugin, _, _ in self.worksheet:\n            code += f\"from appletree.plugins import {plugin}\\n\"\n"),
    ("ok", X, '        output = "key, " + "[" + ", ".join(data_names) + "]"\n        code += f"{indent}return {output}\\n"\n',
     '        code += indent + "return key, [" + ", ".join(data_names) + "]\\n"\n'),
    ("ok", X, '        if "eff" in data_names:\n            data_names.remove("eff")\n', '        data_names = [n for n in data_names if n != "eff"]\n'),
    ("ok", X, '            data_names += ["eff"]\n', '            data_names.append("eff")\n'),
]
