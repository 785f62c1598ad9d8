"""Whole-program source model of the analysed package (never imported, only parsed).

Parses every module of ``$REPO/appletree``, resolves imports / aliases / star re-exports to dotted
names, and indexes functions, classes, MRO, class attributes and module level constants.
"""

import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "appletree"


class AnalysisBroken(Exception):
    """The source could not be analysed at all (syntax error, anchor vanished)."""


class Func:
    def __init__(self, name, qual, node, mod, cls=None, cond=None):
        self.name = name
        self.qual = qual
        self.node = node
        self.mod = mod
        self.cls = cls
        self.cond = cond  # enclosing module level ``if`` tests

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    @property
    def decorators(self):
        return self.node.decorator_list if not isinstance(self.node, ast.Lambda) else []

    def deco_names(self):
        """Dotted names of decorators; partial(f, ..) contributes f as well."""
        out = []
        for d in self.decorators:
            if isinstance(d, ast.Call):
                out.append(self.mod.dotted(d.func))
                out += [self.mod.dotted(x) for x in d.args if isinstance(x, (ast.Name, ast.Attribute))]
            else:
                out.append(self.mod.dotted(d))
        return [self.mod.proj.canon(x) if x else x for x in out]

    def dotted(self, node):
        """Dotted name of a Name/Attribute chain, imports inside the function included."""
        loc = getattr(self, "_limp", None)
        if loc is None:
            loc = self._limp = {}
            for st in ast.walk(self.node):
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    self.mod._imp(st, loc)
        return self.mod.dotted(node, loc)

    def is_property(self):
        return any(isinstance(d, ast.Name) and d.id in ("property", "cached_property") for d in self.decorators)

    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in self.decorators)

    def is_classmethod(self):
        return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in self.decorators)

    def is_setter(self):
        return any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in self.decorators)

    def is_jitted(self):
        return any(n in ("jax.jit", "jax.pjit") for n in self.deco_names())

    @property
    def loc(self):
        return (self.mod.rel, self.node.lineno, self.qual)


class Class:
    def __init__(self, name, qual, node, mod):
        self.name, self.qual, self.node, self.mod = name, qual, node, mod
        self.methods = {}
        self.setters = {}
        self.attrs = {}  # class level assignments: name -> value expr
        self.annots = {}
        self._mro = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st.name, f"{qual}.{st.name}", st, mod, self)
                if f.is_setter():
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annots[st.target.id] = st.annotation
                if st.value is not None:
                    self.attrs[st.target.id] = st.value

    def __repr__(self):
        return f"<Class {self.qual}>"

    def bases(self):
        out = []
        for b in self.node.bases:
            d = self.mod.dotted(b)
            c = self.mod.proj.lookup_class(d) if d else None
            out.append(c if c is not None else d)
        return out

    def mro(self):
        if self._mro is None:
            seqs = []
            bs = [b for b in self.bases() if isinstance(b, Class)]
            out = [self]
            if bs:
                seqs = [list(b.mro()) for b in bs] + [list(bs)]
                while any(seqs):
                    seqs = [s for s in seqs if s]
                    for s in seqs:
                        h = s[0]
                        if not any(h in o[1:] for o in seqs):
                            break
                    else:
                        h = seqs[0][0]
                    out.append(h)
                    seqs = [[x for x in s if x is not h] for s in seqs]
            self._mro = out
        return self._mro

    def find_method(self, name, after=None):
        mro = self.mro()
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        """(defining class, value expr) of a class level attribute."""
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def find_annot(self, name):
        for c in self.mro():
            if name in c.annots:
                return c, c.annots[name]
        return None, None

    def attr_class(self, name):
        """Project class of an instance attribute, if every assignment to it constructs that class."""
        if not hasattr(self, "_attrcls"):
            self._attrcls = {}
        if name in self._attrcls:
            return self._attrcls[name]
        found, other = set(), False
        for c in self.mro():
            for m in c.methods.values():
                if not m.params:
                    continue
                for n in ast.walk(m.node):
                    if not isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        continue
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(
                                t.value, ast.Name) and t.value.id == m.params[0]:
                            d = c.mod.dotted(n.value.func) if isinstance(n.value, ast.Call) else None
                            k = c.mod.proj.lookup_class(d) if d else None
                            if k is None:
                                other = True
                            else:
                                found.add(k)
        r = found.pop() if len(found) == 1 and not other else None
        self._attrcls[name] = r
        return r

    def is_subclass(self, qual):
        return any(c.qual == qual or c.name == qual for c in self.mro())

    @property
    def loc(self):
        return (self.mod.rel, self.node.lineno, self.qual)


class Unbound(ast.NodeTransformer):
    """Methods of builtin containers called on the class: dict.update(x, y) is x.update(y)."""

    TYPES = {"dict": ("update", "get", "keys", "items", "values", "pop", "clear", "copy", "setdefault", "__setitem__", "__getitem__", "__contains__"),
             "list": ("append", "extend", "insert", "remove", "pop", "sort", "reverse", "clear", "copy", "index", "count"),
             "set": ("add", "discard", "remove", "update", "clear", "copy", "union", "intersection", "difference")}

    def __init__(self):
        self.owner = None

    def visit_FunctionDef(self, n):
        keep, self.owner = self.owner, n.args.args[0].arg if n.args.args else self.owner
        self.generic_visit(n)
        self.owner = keep
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.attr in self.TYPES.get(f.value.id, ()) and n.args
                and not isinstance(n.args[0], ast.Starred)):
            return n
        x, rest = n.args[0], n.args[1:]
        if isinstance(x, ast.Name) and x.id == "self" and self.owner == "self":
            x = ast.copy_location(ast.Call(ast.Name("super", ast.Load()), [], []), x)
        elif f.attr == "__setitem__" and len(rest) == 2 and not n.keywords:
            # stores without going through an overridden __setitem__, as update does
            d = ast.Dict([rest[0]], [rest[1]])
            return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Attribute(x, "update", ast.Load()), [d], []), n))
        elif f.attr.startswith("__"):
            return n
        return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Attribute(x, f.attr, ast.Load()), rest, n.keywords), n))


class Module:
    def __init__(self, proj, name, path, rel):
        self.proj, self.name, self.path, self.rel = proj, name, path, rel
        if rel in proj.overlay:
            self.src = proj.overlay[rel]
        else:
            with open(path, encoding="utf-8") as f:
                self.src = f.read()
        try:
            self.tree = Unbound().visit(ast.parse(self.src, path))
        except SyntaxError as e:
            raise AnalysisBroken(f"cannot parse {rel}: {e}")
        self.is_pkg = path.endswith("__init__.py")
        self.imports = {}  # local name -> dotted
        self.stars = []  # star imported modules in order
        self.funcs = {}  # name -> [Func] (variants)
        self.classes = {}
        self.consts = {}  # name -> [expr]
        self.order = []  # definition order of names
        self._all = False
        self._scan(self.tree.body, ())

    def _abs(self, node):
        if node.level == 0:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[: len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _imp(self, st, table):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    table[a.asname] = a.name
                else:
                    table[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            base = self._abs(st)
            for a in st.names:
                if a.name == "*":
                    self.stars.append(base)
                    self.order.append(("star", base))
                else:
                    table[a.asname or a.name] = f"{base}.{a.name}" if base else a.name

    def _scan(self, body, cond):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self._imp(st, self.imports)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs.setdefault(st.name, []).append(
                    Func(st.name, f"{self.name}.{st.name}", st, self, None, cond))
                self.order.append(("def", st.name))
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st.name, f"{self.name}.{st.name}", st, self)
                self.order.append(("def", st.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.consts.setdefault(n.id, []).append(st.value if t is n else None)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.consts.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.If):
                self._scan(st.body, cond + (st.test,))
                self._scan(st.orelse, cond + (ast.UnaryOp(ast.Not(), st.test),))
            elif isinstance(st, ast.Try):
                self._scan(st.body, cond)
                for h in st.handlers:
                    self._scan(h.body, cond)
                self._scan(st.orelse, cond)
                self._scan(st.finalbody, cond)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                self._scan(st.body, cond)

    def dotted(self, node, local=None):
        """Dotted name of a Name/Attribute chain, resolving the module's imports."""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if isinstance(node, ast.Call) and not parts:
            return None
        if not isinstance(node, ast.Name):
            return None
        head = node.id
        if local and head in local:
            base = local[head]
        else:
            base = self.resolve_name(head)
        if base is None:
            base = head
        return ".".join([base] + parts[::-1])

    def resolve_name(self, name):
        if name in self.imports:
            return self.imports[name]
        if name in self.funcs or name in self.classes or name in self.consts:
            return f"{self.name}.{name}"
        for s in reversed(self.stars):
            m = self.proj.modules.get(s)
            if m is not None and m.exports(name):
                return f"{s}.{name}"
        return None

    def exports(self, name):
        """Whether ``from m import *`` brings ``name`` (respects __all__ / the export decorator)."""
        if self._all is False:
            self._all = sub_all(self)
        if self._all is not None:
            return name in self._all
        if name.startswith("_"):
            return False
        if name in self.funcs or name in self.classes or name in self.consts or name in self.imports:
            return True
        return any(
            self.proj.modules[s].exports(name) for s in self.stars if s in self.proj.modules)


class Project:
    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        self.overlay = overlay or {}  # rel path -> source replacing the file (self-audit only)
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"{root} does not exist")
        files = []
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".py")]
        for p in files:
            rel = os.path.relpath(p, self.repo)
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            m = Module.__new__(Module)
            self.modules[name] = m
            m.__init__(self, name, p, rel)
        self.files = {m.rel: m for m in self.modules.values()}

    def text(self, rel):
        """Text of a shipped data file of the repository."""
        if rel in self.overlay:
            return self.overlay[rel]
        with open(os.path.join(self.repo, rel), encoding="utf-8") as f:
            return f.read()

    def shipped(self):
        """Relative paths of every file of the package that is not Python source."""
        out = []
        for d, ds, fs in os.walk(os.path.join(self.repo, PKG)):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            out += [os.path.relpath(os.path.join(d, f), self.repo) for f in sorted(fs) if not f.endswith((".py", ".pyc"))]
        return out

    # -- symbol resolution -------------------------------------------------
    def canon(self, dotted):
        """Follow re-exports until the defining module (project names only)."""
        if dotted is None:
            return None
        seen = set()
        while dotted not in seen:
            seen.add(dotted)
            parts = dotted.split(".")
            if parts[0] != PKG:
                return dotted
            # longest module prefix
            for i in range(len(parts), 0, -1):
                mname = ".".join(parts[:i])
                if mname in self.modules:
                    break
            else:
                return dotted
            rest = parts[i:]
            if not rest:
                return dotted
            m = self.modules[mname]
            if rest[0] in m.funcs or rest[0] in m.classes or rest[0] in m.consts:
                # submodules never shadow definitions here
                return dotted
            r = m.resolve_name(rest[0])
            if r is not None and ".".join([r] + rest[1:]) in seen:
                # re-export cycle: take the defining module, if only one defines the name
                ds = [n for n, x in self.modules.items() if rest[0] in x.classes or rest[0] in x.funcs]
                r = f"{ds[0]}.{rest[0]}" if len(ds) == 1 else None
            if r is None or r == dotted:
                return dotted
            dotted = ".".join([r] + rest[1:])
        return dotted

    def lookup(self, dotted):
        """Func list / Class / Module for a dotted name, or None."""
        d = self.canon(dotted)
        if d is None:
            return None
        if d in self.modules:
            return self.modules[d]
        parts = d.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mname = ".".join(parts[:i])
            if mname in self.modules:
                m = self.modules[mname]
                rest = parts[i:]
                if len(rest) == 1:
                    if rest[0] in m.funcs:
                        return m.funcs[rest[0]]
                    if rest[0] in m.classes:
                        return m.classes[rest[0]]
                    return None
                if rest[0] in m.classes and len(rest) == 2:
                    f = m.classes[rest[0]].find_method(rest[1])
                    return [f] if f else None
                return None
        return None

    def lookup_class(self, dotted):
        r = self.lookup(dotted)
        return r if isinstance(r, Class) else None

    def lookup_funcs(self, dotted):
        r = self.lookup(dotted)
        return r if isinstance(r, list) else []

    # -- iteration ----------------------------------------------------------
    def all_funcs(self):
        for m in self.modules.values():
            for fs in m.funcs.values():
                yield from fs
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.setters.values()

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def find_classes(self, name):
        return [c for c in self.all_classes() if c.name == name]

    def cls(self, name):
        """The (only) public class of that name; AnalysisBroken if it vanished."""
        cs = self.find_classes(name)
        if not cs:
            raise AnalysisBroken(f"class {name} not found in {PKG}")
        return cs[0]

    def method(self, cls, name):
        f = self.cls(cls).find_method(name)
        if f is None:
            raise AnalysisBroken(f"method {cls}.{name} not found")
        return f

    def func(self, name):
        fs = [f for m in self.modules.values() for f in m.funcs.get(name, [])]
        if not fs:
            raise AnalysisBroken(f"function {name} not found in {PKG}")
        return fs[0]

    def subclasses(self, base):
        return [c for c in self.all_classes()
                if c.name != base and any(x.name == base for x in c.mro()[1:])]

    def namespace(self, mname):
        """Public namespace of a module as attribute name -> Class/Func/..., in dir() (sorted) order.

        Models ``dir(module)``: definitions and every imported / star imported name.
        """
        m = self.modules[mname]
        out = {}
        for s in m.stars:
            if s in self.modules:
                sub = self.modules[s]
                expl = sub_all(sub)
                for k, v in self.namespace(s).items():
                    if (expl is not None and k in expl) or (expl is None and not k.startswith("_")):
                        out[k] = v
        for k, v in m.imports.items():
            r = self.lookup(v)
            out[k] = r if r is not None else v
        for k, v in m.funcs.items():
            out[k] = v
        for k, v in m.classes.items():
            out[k] = v
        for sub in self.modules:
            if sub.startswith(mname + ".") and "." not in sub[len(mname) + 1:]:
                out.setdefault(sub[len(mname) + 1:], self.modules[sub])
        return dict(sorted(out.items()))


def sub_all(m):
    """Explicit ``__all__`` of a module that uses the ``export, __all__ = exporter(..)`` idiom."""
    if "__all__" not in m.consts:
        return None
    names = set()
    for coll in (m.funcs, m.classes):
        for k, v in coll.items():
            for f in v if isinstance(v, list) else [v]:
                for d in (f.node.decorator_list):
                    if isinstance(d, ast.Name) and d.id == "export":
                        names.add(k)
    for st in ast.walk(m.tree):
        if isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and st.func.attr in ("extend", "append"):
            if isinstance(st.func.value, ast.Name) and st.func.value.id == "__all__":
                for a in st.args:
                    for c in ast.walk(a):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str):
                            names.add(c.value)
    for v in m.consts["__all__"]:
        if isinstance(v, (ast.List, ast.Tuple)):
            names |= {c.value for c in v.elts if isinstance(c, ast.Constant)}
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call):
            for k in st.value.keywords:
                if k.arg == "export_self" and isinstance(k.value, ast.Constant) and k.value.value:
                    names.add("exporter")
    return names
