U = "appletree/utils.py"
S1 = '''    if os.path.isfile(fname):
        return fname

'''
S2 = '''    if "url_base" in _cached_configs.keys():
        url_base = _cached_configs["url_base"]

        if url_base.startswith("/"):
            fpath = os.path.join(url_base, fname)
            if os.path.exists(fpath):
                warn(f"Load {fname} successfully from {fpath}")
                return fpath

'''
S3 = '''    try:
        return _get_abspath(fname)
    except FileNotFoundError:
        pass

'''
LOOP = '''    for sub_dir in ("maps", "data", "parameters", "instructs"):
        p = os.path.join(_package_path(sub_dir), file_name)
        if os.path.exists(p):
            return p
'''
C3 = "    # 3. From appletree internal files\n"
S4 = '''    if NT_AUX_INSTALLED:
        # You might want to use this, for example if you are a developer
        if fname in ntauxfiles.list_private_files():
            fpath = ntauxfiles.get_abspath(fname)
            warn(f"Load {fname} successfully from {fpath}")
            return fpath

'''
ENTRIES = [
    ("bad", U, S2 + C3 + S3, S3 + S2),
    ("bad", U, S1, ""),
    ("bad", U, S2, ""),
    ("bad", U, S3, ""),
    ("bad", U, '        if url_base.startswith("/"):\n', "        if True:\n"),
    ("bad", U, "            if os.path.exists(fpath):\n                warn(f\"Load {fname} successfully from {fpath}\")\n                return fpath\n\n    # 3", "            return fpath\n\n    # 3"),
    ("bad", U, '("maps", "data", "parameters", "instructs")', '("maps", "data", "parameters")'),
    ("bad", U, '("maps", "data", "parameters", "instructs")', '("data", "maps", "parameters", "instructs")'),
    ("bad", U, LOOP, LOOP.replace("            return p\n", "            found = p\n").replace("    for", "    found = None\n    for") + "    if found:\n        return found\n"),
    ("bad", U, "    raise FileNotFoundError(f\"Cannot find {file_name}\")\n", "    return p\n"),
    ("bad", U, '    raise RuntimeError(f"Can not find {fname}, please check your file system")\n', "    return fname\n"),
    ("bad", U, '    raise RuntimeError(f"Can not find {fname}, please check your file system")\n', "    warn('not found')\n"),
    ("bad", U, C3 + S3 + "    # 4. From local installed ntauxfiles\n" + S4, S4 + S3),
    ("bad", U, "    if not SKIP_MONGO_DB:\n", "    if SKIP_MONGO_DB:\n"),
    ("bad", U, "        if fname in ntauxfiles.list_private_files():\n", "        if True:\n"),
    ("bad", U, 'with open(get_file_path(file_name), "r") as file:', 'with open(file_name, "r") as file:'),
    ("bad", U, "    file_name = get_file_path(file_name)\n    fmt", "    fmt"),
    ("ok", U, S1, "    if not fname.startswith('/') and os.path.isfile(fname):\n        return fname\n\n"),
    ("bad", U, S1, "    if fname.startswith('/') and os.path.isfile(fname):\n        return fname\n\n"),
    ("ok", U, S1, "    if os.path.exists(fname):\n        return fname\n\n"),
    ("ok", U, S2, '''    base = _cached_configs.get("url_base", None)
    if base is not None and os.path.isabs(base):
        candidate = os.path.join(base, fname)
        if os.path.isfile(candidate):
            return candidate

'''),
    ("ok", U, LOOP, '''    for sub_dir in ("maps", "data", "parameters", "instructs"):
        p = _package_path(sub_dir) / file_name
        if p.exists():
            return str(p)
'''),
    ("ok", U, LOOP, '''    candidates = [os.path.join(_package_path(s), file_name) for s in ("maps", "data", "parameters", "instructs")]
    for c in candidates:
        if os.path.exists(c):
            return c
'''),
    ("ok", U, S3, '''    try:
        found = _get_abspath(fname)
    except FileNotFoundError:
        found = None
    if found is not None:
        return found

'''),
    ("ok", U, S4, '''    if NT_AUX_INSTALLED and fname in ntauxfiles.list_private_files():
        return ntauxfiles.get_abspath(fname)

'''),
]
