"""Declared interface of plugin classes, read from their source."""

import ast

from .proj import Class

CONFIGS = ("Constant", "Map", "SigmaMap", "ConstantSet")


def lit(cls, name):
    """Literal value of a class attribute (list/tuple of constants), or None."""
    c, e = cls.find_attr(name)
    if e is None:
        return None
    return value(c, e)


def value(c, e, depth=0):
    try:
        return ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError):
        pass
    if depth > 4:
        return None
    if isinstance(e, ast.Name):
        if c is not None and e.id in c.attrs:
            return value(c, c.attrs[e.id], depth + 1)
        m = c.mod if c is not None else None
        x = m.consts.get(e.id) if m else None
        if x and len(x) == 1 and x[0] is not None:
            return value(c, x[0], depth + 1)
    if isinstance(e, ast.Attribute):
        d = c.mod.dotted(e.value) if c else None
        k = c.mod.proj.lookup_class(d) if d else None
        if k is not None:
            return lit(k, e.attr)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = value(c, e.left, depth + 1), value(c, e.right, depth + 1)
        if a is not None and b is not None:
            try:
                return a + b
            except TypeError:
                return None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple") and len(e.args) == 1:
        a = value(c, e.args[0], depth + 1)
        return None if a is None else (list if e.func.id == "list" else tuple)(a)
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = value(c, x.value, depth + 1)
                if v is None:
                    return None
                out += list(v)
            else:
                v = value(c, x, depth + 1)
                if v is None:
                    return None
                out.append(v)
        return out if isinstance(e, ast.List) else tuple(out)
    return None


class Cfg:
    def __init__(self, name, kind, kws, call, cls, loc):
        self.name, self.kind, self.kws, self.call, self.cls, self.loc = name, kind, kws, call, cls, loc

    def get(self, k, default=None):
        """Literal keyword value; Ellipsis if present but not a literal."""
        if k not in self.kws:
            return default
        v = value(self.cls, self.kws[k])
        if v is None and not (isinstance(self.kws[k], ast.Constant) and self.kws[k].value is None):
            return ...
        return v


def configs(cls):
    """[Cfg] of a plugin class, own and inherited; None if a declaration is not literal."""
    out = []
    proj = cls.mod.proj
    for c in reversed(cls.mro()):
        for d in c.node.decorator_list:
            if not isinstance(d, ast.Call):
                continue
            n = c.mod.dotted(d.func)
            n = proj.canon(n) if n else None
            if not n or n.split(".")[-1] != "takes_config":
                continue
            for a in d.args:
                if isinstance(a, ast.Name):
                    x = c.mod.consts.get(a.id)
                    a = x[0] if x and len(x) == 1 and x[0] is not None else a
                if not isinstance(a, ast.Call):
                    return None
                kn = c.mod.dotted(a.func)
                k = proj.lookup_class(kn) if kn else None
                if k is None:
                    return None
                kind = next((x.name for x in k.mro() if x.name in CONFIGS), k.name)
                init = k.find_method("__init__")
                ps = init.params[1:] if init else []
                kws = {p: e for p, e in zip(ps, a.args)}
                kws.update({w.arg: w.value for w in a.keywords if w.arg})
                nm = value(c, kws.get("name")) if kws.get("name") is not None else None
                if not isinstance(nm, str):
                    return None
                out.append(Cfg(nm, kind, kws, a, c, (c.mod.rel, a.lineno, c.qual)))
    return out


class Iface:
    def __init__(self, cls):
        self.cls = cls
        self.depends_on, self.provides = lit(cls, "depends_on"), lit(cls, "provides")
        p = lit(cls, "parameters")
        self.parameters = (p,) if isinstance(p, str) else p if p is not None else None
        self.configs = configs(cls)


def plugins(proj):
    return [c for c in proj.subclasses("Plugin") if "simulate" in {n for k in c.mro() if k.name != "Plugin" for n in k.methods}]
