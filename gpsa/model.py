"""Program model: modules, imports, classes and functions of /repo/gpkit.

Parsed afresh from the working tree on every run; nothing of gpkit is imported
or executed.
"""
import ast
import builtins
import hashlib
import os

REPO = os.environ.get("GPSA_REPO", "/repo")
PKG = "gpkit"
EXCLUDED_DIRS = {"tests", "env", "__pycache__"}


class AnalysisBroken(Exception):
    "An anchor of a rule is missing: the check can give no answer."


class Func:
    "A function or method definition."
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual, self.node, self.module = qual, node, module
        self.cls, self.parent = cls, parent
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.nested = {}
        decos = []
        for d in getattr(node, "decorator_list", []):
            decos.append(ast.unparse(d))
        self.decorators = decos
        self.is_static = "staticmethod" in decos
        self.is_classmethod = "classmethod" in decos
        self.is_property = any(d == "property" or d.endswith(".setter")
                               or d.split(".")[-1] == "cached_property"
                               for d in decos)
        self.is_contextmanager = any(d.split(".")[-1] == "contextmanager"
                                     for d in decos)
        self.is_generator = _is_generator(node)

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def kwonly(self):
        return [p.arg for p in self.node.args.kwonlyargs]

    def all_params(self):
        a = self.node.args
        out = self.params() + self.kwonly()
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    @property
    def file(self):
        return self.module.relpath

    def __repr__(self):
        return "<Func %s>" % self.qual


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    for n in walk_shallow(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_shallow(node):
    "Walks a function's own body, not those of nested functions and classes."
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    "A class definition."
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods, self.attrs = {}, {}
        self.base_exprs = node.bases
        self.bases = []     # qualified names (project) or external dotted names
        self.metaclass = None

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module:
    "A source file."
    def __init__(self, name, path, relpath, is_pkg):
        self.name, self.path, self.relpath = name, path, relpath
        self.is_pkg = is_pkg
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.names = {}      # local name -> ('mod'|'obj', qualified)
        self.assigns = {}    # module-level name -> list of value nodes
        self.functions, self.classes = {}, {}
        self.globals_assigned = set()


class Program:
    "The whole package."
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules, self.functions, self.classes = {}, {}, {}
        self.method_index = {}
        self._load()
        self._resolve_names()
        self._resolve_bases()

    # -- loading ----------------------------------------------------------
    def _load(self):
        top = os.path.join(self.root, PKG)
        if not os.path.isdir(top):
            raise AnalysisBroken("no package at %s" % top)
        for dirpath, dirnames, filenames in os.walk(top):
            dirnames[:] = sorted(d for d in dirnames if d not in EXCLUDED_DIRS)
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                try:
                    mod = Module(name, path, rel, is_pkg)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
                self.modules[name] = mod
        for mod in self.modules.values():
            self._index_body(mod, mod.tree.body, mod.name, None)

    def _index_body(self, mod, body, prefix, cls):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(prefix + "." + st.name, st, mod, cls)
                if cls is not None:
                    # property setters share the getter's name
                    if st.name in cls.methods and any(
                            d.endswith(".setter") for d in f.decorators):
                        continue
                    cls.methods[st.name] = f
                else:
                    mod.functions[st.name] = f
                self._add_function(f)
            elif isinstance(st, ast.ClassDef):
                c = Class(prefix + "." + st.name, st, mod)
                self.classes[c.qual] = c
                if cls is None:
                    mod.classes[st.name] = c
                for kw in st.keywords:
                    if kw.arg == "metaclass":
                        c.metaclass = kw.value
                self._index_body(mod, st.body, c.qual, c)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                if st.value is None:
                    continue
                for t in targets:
                    self._index_assign(mod, cls, t, st.value)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For,
                                 ast.While)):
                for sub in ("body", "orelse", "finalbody"):
                    self._index_body(mod, getattr(st, sub, []), prefix, cls)
                for h in getattr(st, "handlers", []):
                    self._index_body(mod, h.body, prefix, cls)

    def _index_assign(self, mod, cls, target, value):
        if isinstance(target, ast.Name):
            (cls.attrs if cls is not None else mod.assigns).setdefault(
                target.id, []).append(value)
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, el in enumerate(target.elts):
                v = (value.elts[i] if isinstance(value, (ast.Tuple, ast.List))
                     and len(value.elts) == len(target.elts) else value)
                self._index_assign(mod, cls, el, v)

    def _add_function(self, f):
        self.functions[f.qual] = f
        if f.cls is not None:
            self.method_index.setdefault(f.name, []).append(f)
        for n in walk_shallow(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = Func(f.qual + ".<locals>." + n.name, n, f.module, f.cls, f)
                f.nested[n.name] = g
                self._add_nested(g)

    def _add_nested(self, g):
        self.functions[g.qual] = g
        for n in walk_shallow(g.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                h = Func(g.qual + ".<locals>." + n.name, n, g.module, g.cls, g)
                g.nested[n.name] = h
                self._add_nested(h)

    # -- names --------------------------------------------------------------
    def _resolve_names(self):
        for mod in self.modules.values():
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        top = a.name.split(".")[0]
                        if a.asname:
                            mod.names.setdefault(a.asname, ("mod", a.name))
                        else:
                            mod.names.setdefault(top, ("mod", top))
                elif isinstance(n, ast.ImportFrom):
                    base = self._abs_module(mod, n)
                    for a in n.names:
                        full = base + "." + a.name
                        kind = "mod" if (full in self.modules
                                         and not self._defines(base, a.name)) \
                            else "obj"
                        mod.names.setdefault(a.asname or a.name, (kind, full))
        for mod in self.modules.values():
            for table in (mod.functions, mod.classes, mod.assigns):
                for name in table:
                    mod.names.setdefault(name, ("obj", mod.name + "." + name))

        for mod in self.modules.values():  # names a package binds over a module
            for name, (kind, full) in list(mod.names.items()):
                if kind == "obj" and full in self.modules:
                    head, _, tail = full.rpartition(".")
                    over = self.modules[head].names.get(tail)
                    if over and over[1] != full:
                        mod.names[name] = over

    def _defines(self, modname, name):
        "Whether a package's namespace binds name to an object, not a module."
        m = self.modules.get(modname)
        if m is None:
            return False
        if name in m.functions or name in m.classes or name in m.assigns:
            return True
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        base = self._abs_module(m, n)
                        if base + "." + a.name != modname + "." + name:
                            return True
        return False

    def _abs_module(self, mod, node):
        if not node.level:
            return node.module or ""
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def canonical(self, qual, _depth=0):
        "Follows re-exports to the defining module."
        if _depth > 12:
            return qual
        if qual in self.functions or qual in self.classes or qual in self.modules:
            return qual
        head, _, tail = qual.rpartition(".")
        mod = self.modules.get(head)
        if mod is not None:
            if tail in mod.names:
                kind, full = mod.names[tail]
                if full != qual:
                    return self.canonical(full, _depth + 1)
            if tail in mod.assigns and len(mod.assigns[tail]) == 1:
                v = mod.assigns[tail][0]
                if isinstance(v, ast.Name) and v.id != tail:
                    r = self.resolve(mod, v.id)
                    if r:
                        return r
            return qual
        if head:
            chead = self.canonical(head, _depth + 1)
            if chead != head:
                return self.canonical(chead + "." + tail, _depth + 1)
        return qual

    def resolve(self, mod, name):
        "Qualified name of a module-level name, or None (a builtin or unknown)."
        if name in mod.names:
            return self.canonical(mod.names[name][1])
        return None

    # -- classes --------------------------------------------------------------
    def _resolve_bases(self):
        for c in self.classes.values():
            for b in c.base_exprs:
                c.bases.append(self.resolve_dotted(c.module, b))
            if c.metaclass is not None:
                c.metaclass = self.resolve_dotted(c.module, c.metaclass)

    def resolve_dotted(self, mod, node):
        if isinstance(node, ast.Name):
            return self.resolve(mod, node.id) or node.id
        if isinstance(node, ast.Attribute):
            base = self.resolve_dotted(mod, node.value)
            if base is None:
                return None
            return self.canonical(base + "." + node.attr)
        return None

    def mro(self, qual):
        "A linearisation of a class's ancestors (project classes only)."
        out, seen = [], set()

        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                seqs = [[x for x in s if x != cand] for s in seqs]
                seqs = [s for s in seqs if s]
            return res

        def lin(q):
            c = self.classes.get(q)
            if c is None:
                return [q]
            return [q] + merge([lin(b) for b in c.bases if b] + [list(
                b for b in c.bases if b)])
        for q in lin(qual):
            if q not in seen:
                seen.add(q)
                out.append(q)
        return out

    def external_bases(self, qual):
        return [q for q in self.mro(qual) if q not in self.classes]

    def find_method(self, clsqual, name, after=None):
        "Resolves a method through the class hierarchy (after: for super())."
        mro = self.mro(clsqual)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for q in mro:
            c = self.classes.get(q)
            if c is None:
                continue
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                v = c.attrs[name][-1]
                f = self._attr_function(c, v)
                if f is not None:
                    return f
                return None
        return None

    def _attr_function(self, c, v):
        "Class attributes that alias functions: x = y, __hash__ = Nomial.__hash__"
        if isinstance(v, ast.Name):
            if v.id in c.methods:
                return c.methods[v.id]
            r = self.resolve(c.module, v.id)
            return self.functions.get(r)
        if isinstance(v, ast.Attribute):
            base = self.resolve_dotted(c.module, v.value)
            if base in self.classes:
                return self.find_method(base, v.attr)
        return None

    def find_class_attr(self, clsqual, name):
        for q in self.mro(clsqual):
            c = self.classes.get(q)
            if c is not None and name in c.attrs:
                return c, c.attrs[name][-1]
        return None, None

    def subclasses(self, qual):
        "qual and all its project subclasses."
        return [q for q in self.classes if qual in self.mro(q)]

    def is_subclass(self, q, of):
        if q == of:
            return True
        if q in self.classes:
            return of in self.mro(q)
        return False

    # -- anchors --------------------------------------------------------------
    def cls(self, qual):
        c = self.classes.get(self.canonical(qual))
        if c is None:
            name = qual.rpartition(".")[2]
            hits = [c for q, c in self.classes.items() if c.name == name]
            if len(hits) == 1:
                return hits[0]
            raise AnalysisBroken("class %s not found" % qual)
        return c

    def method(self, clsqual, name):
        f = self.find_method(self.cls(clsqual).qual, name)
        if f is None:
            raise AnalysisBroken("method %s.%s not found" % (clsqual, name))
        return f

    def func(self, qual):
        f = self.functions.get(self.canonical(qual))
        if f is None:
            name = qual.rpartition(".")[2]
            hits = [f for q, f in self.functions.items()
                    if f.name == name and f.cls is None and f.parent is None]
            if len(hits) == 1:
                return hits[0]
            raise AnalysisBroken("function %s not found" % qual)
        return f

    def public_methods(self, clsqual):
        "name -> Func over the whole MRO."
        out = {}
        for q in reversed(self.mro(self.cls(clsqual).qual)):
            c = self.classes.get(q)
            if c is None:
                continue
            for name in list(c.methods) + list(c.attrs):
                f = self.find_method(clsqual, name)
                if f is not None:
                    out[name] = f
        return out

    def digest(self):
        h = hashlib.sha256()
        for name in sorted(self.modules):
            h.update(name.encode())
            h.update(self.modules[name].src.encode())
        return h.hexdigest()[:16]

    def all_functions(self):
        return [f for f in self.functions.values()]

    # exceptions ---------------------------------------------------------------
    def exc_bases(self, name):
        "All ancestors of an exception class (qualified or builtin name)."
        q = self.canonical(name)
        if q in self.classes:
            out = []
            for b in self.mro(q):
                out.append(b)
                if b not in self.classes:
                    out.extend(self.exc_bases(b))
            return out
        short = name.rpartition(".")[2]
        b = getattr(builtins, short, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return [k.__name__ for k in b.__mro__ if k is not object]
        if isinstance(b, type) and short == name:
            return [name]           # a builtin that is no exception
        if short == "DimensionalityError":  # pint's is a TypeError
            return [name, "DimensionalityError", "TypeError", "Exception",
                    "BaseException"]
        return [name, "Exception", "BaseException"]


_PROGRAM = None


def program():
    global _PROGRAM
    if _PROGRAM is None:
        _PROGRAM = Program()
    return _PROGRAM
