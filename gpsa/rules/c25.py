"""C25: definite assignment on every path (conditions decided once per path,
flags followed, loops entered zero, one and several times, handlers entered
from each statement that can raise); every name, import, module member and own
attribute used exists; every constant template agrees with the number, names
and kinds of the values put in it; what is raised or caught is an exception;
calls resolved inside the package agree with the signature called, and
unpackings with the length of what is returned."""
import ast
import builtins
import glob
import os
import re
import string
import symtable

from ..assigned import Walk, local_names, params
from ..flow import is_new
from ..model import EXCLUDED_DIRS, walk_shallow

TECHNIQUE = ("path-sensitive definite assignment, name/attribute resolution, "
             "template and signature agreement")
ASSUMPTIONS = ["a condition evaluated twice with no rebinding of its names in "
               "between has the same value",
               "a range of computed length is not empty",
               "objects of external libraries have the attributes their "
               "sources mention"]
SITE = "/opt/venv/lib/python3*/site-packages"
CONV = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)"
                  r"(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<type>.)",
                  re.S)
NUMERIC = set("diouxXeEfFgG")
EVERYWHERE = {"__file__", "__name__", "__doc__", "__path__", "__package__",
              "__spec__", "__loader__", "__builtins__", "__class__",
              "__qualname__", "__module__", "__annotations__", "__debug__",
              "get_ipython", "__dict__"}
OPEN = {"ImportError", "ModuleNotFoundError", "NameError", "AttributeError",
        "SyntaxError", "OSError"}     # builtins taking keywords


def run(chk):
    p = Names(chk)
    assignments(chk, p)
    p.names()
    p.imports()
    p.members()
    p.attributes()
    templates(chk, p)
    exceptions(chk, p)
    calls(chk, p)
    chk.need("assigned before read", 100)
    chk.need("template", 20)


def caught_by(node, parents, names):
    "Whether a node lies in the body of a try that handles one of names."
    while node in parents:
        up = parents[node]
        if isinstance(up, ast.Try) and any(node is b for b in up.body):
            for h in up.handlers:
                if h.type is None:
                    return True
                text = ast.unparse(h.type)
                if any(re.search(r"\b%s\b" % n, text) for n in names):
                    return True
        node = up
    return False


# -- definite assignment ------------------------------------------------------
def assignments(chk, p):
    ends = Ends(p)
    funcs = chk.prog.all_functions()
    reads = 0
    for f in funcs:
        w = Walk(f.node, params(f.node), ends.of(f),
                 cap=400 if chk.thorough else 80,
                 turns=5 if chk.thorough else 3,
                 watch={id(n) for n in walk_shallow(f.node)
                        if isinstance(n, ast.BinOp)
                        and isinstance(n.op, ast.Mod)
                        or isinstance(n, ast.Call)
                        and isinstance(n.func, ast.Attribute)
                        and n.func.attr == "format"})
        p.states.update(w.sites)
        reads += w.reads
        if not w.reports:
            chk.ob("assigned before read", f, "%i reads of locals" % w.reads,
                   True)
        for (line, name), facts in sorted(w.reports.items()):
            node = [n for n in ast.walk(f.node) if isinstance(n, ast.Name)
                    and n.id == name and n.lineno == line]
            guarded = node and caught_by(
                node[0], p.parents[f.module.name],
                ("NameError", "UnboundLocalError", "Exception"))
            chk.ob("assigned before read", f, name, bool(guarded),
                   "'%s' is read here on a path on which it was not assigned"
                   % name, line, path=facts)
    for m in chk.prog.modules.values():
        w = Walk(m.tree, start=EVERYWHERE)
        reads += w.reads
        for (line, name), facts in sorted(w.reports.items()):
            if hasattr(builtins, name):
                continue
            node = [n for n in ast.walk(m.tree) if isinstance(n, ast.Name)
                    and n.id == name and n.lineno == line]
            if node and caught_by(node[0], p.parents[m.name], ("NameError",)):
                continue
            chk.ob("assigned before read", m.name, name, False,
                   "module name '%s' is read before it is assigned" % name,
                   line, path=facts)
    chk.stats["reads of locals, states considered"] = reads


class Ends:
    "Calls that never return: sys.exit and functions that only raise."

    def __init__(self, p):
        self.p, self.memo = p, {}

    def of(self, f):
        return lambda call: self.call(f, call)

    def call(self, f, call):
        text = ast.unparse(call.func)
        if text in ("sys.exit", "os._exit", "exit", "quit"):
            return True
        g = self.p.target(f, call)
        if g is None or g.is_generator or g.decorators:
            return False
        if g.qual not in self.memo:
            self.memo[g.qual] = False
            if any(isinstance(n, ast.Raise) for n in walk_shallow(g.node)):
                w = Walk(g.node, params(g.node), self.of(g))
                self.memo[g.qual] = not w.out and not w.returns
        return self.memo[g.qual]


# -- names --------------------------------------------------------------------
class Names:
    "What each module defines, and who means what."

    def __init__(self, chk):
        self.chk, self.prog = chk, chk.prog
        self.parents, self.tables, self.exports = {}, {}, {}
        for m in self.prog.modules.values():
            par = {}
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    par[c] = n
            self.parents[m.name] = par
            self.tables[m.name] = symtable.symtable(m.src, m.path, "exec")
            self.exports[m.name] = self.defined(m)
        self.states = {}      # id of a % expression -> states that reach it

    def defined(self, m):
        top = self.tables[m.name]
        out = {s.get_name() for s in top.get_symbols()
               if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                out |= set(n.names)
        prefix = m.name + "."
        out |= {q[len(prefix):].split(".")[0] for q in self.prog.modules
                if q.startswith(prefix)}
        return out | EVERYWHERE

    def func_at(self, m, line):
        best = None
        for f in self.prog.all_functions():
            if f.module is m and f.node.lineno <= line <= f.node.end_lineno:
                if best is None or f.node.lineno >= best.node.lineno:
                    best = f
        return best or m.name

    def names(self):
        for m in self.prog.modules.values():
            have = self.exports[m.name] | set(dir(builtins))
            if any(isinstance(n, ast.ImportFrom) and n.names[0].name == "*"
                   for n in ast.walk(m.tree)):
                continue
            todo, missing, count = [self.tables[m.name]], set(), 0
            while todo:
                t = todo.pop()
                todo.extend(t.get_children())
                for s in t.get_symbols():
                    if not s.is_referenced():
                        continue
                    top = t.get_type() == "module"
                    if not (top or s.is_global()):
                        continue
                    count += 1
                    if s.get_name() not in have:
                        missing.add(s.get_name())
            bad = False
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and n.id in missing and \
                        isinstance(n.ctx, ast.Load):
                    if caught_by(n, self.parents[m.name],
                                 ("NameError", "Exception")):
                        continue
                    f = self.func_at(m, n.lineno)
                    if hasattr(f, "node") and (
                            n.id in params(f.node) | local_names(f.node)):
                        continue
                    bad = True
                    self.chk.ob("name exists", f, n.id, False,
                                "no such name in the function, its module or "
                                "the builtins", n.lineno)
            if not bad:
                self.chk.ob("name exists", m.name,
                            "%i global names" % count, True)

    def imports(self):
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.ImportFrom):
                    continue
                name = self.prog._abs_module(m, n)
                if not name or name.split(".")[0] != "gpkit" or \
                        set(name.split(".")) & EXCLUDED_DIRS:
                    continue
                src = self.prog.modules.get(name)
                if src is None:
                    path = os.path.join(self.prog.root, *name.split("."))
                    ok = os.path.exists(path) or os.path.exists(path + ".py")
                    have = None
                else:
                    ok, have = True, self.exports[name]
                for a in n.names:
                    good = ok and (have is None or a.name == "*"
                                   or a.name in have)
                    if not good and caught_by(n, self.parents[m.name],
                                              ("ImportError", "Exception")):
                        continue
                    self.chk.ob("import exists",
                                self.func_at(m, n.lineno),
                                "from %s import %s" % (name, a.name), good,
                                "%s defines no %s" % (name, a.name), n.lineno)

    # -- members of modules ---------------------------------------------------
    def members(self):
        np_names = numpy_names()
        for m in self.prog.modules.values():
            shadow = {}
            for n in ast.walk(m.tree):
                if not (isinstance(n, ast.Attribute)
                        and isinstance(n.value, ast.Name)
                        and isinstance(n.ctx, ast.Load)):
                    continue
                kind = m.names.get(n.value.id)
                if kind is None:
                    continue
                f = self.func_at(m, n.lineno)
                if hasattr(f, "node"):
                    own = shadow.setdefault(
                        f.qual, params(f.node) | local_names(f.node))
                    if n.value.id in own:
                        continue
                full = kind[1]
                if full == "numpy" and np_names:
                    ok = n.attr in np_names
                elif full in self.prog.modules:
                    ok = n.attr in self.exports[full]
                else:
                    continue
                if not ok and caught_by(n, self.parents[m.name],
                                        ("AttributeError", "Exception",
                                         "ImportError")):
                    continue
                self.chk.ob("member exists", f, ast.unparse(n), ok,
                            "%s has no %s" % (full, n.attr), n.lineno)

    # -- attributes -------------------------------------------------------------
    def attributes(self):
        known = set(EXTERNAL)
        for t in vars(builtins).values():
            if isinstance(t, type):
                known |= set(dir(t))
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and not isinstance(
                        n.ctx, ast.Load):
                    known.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    known.add(n.name)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) \
                        and n.value.isidentifier():
                    known.add(n.value)
                elif isinstance(n, ast.keyword) and n.arg:
                    known.add(n.arg)
            known |= self.exports[m.name]
        for c in self.prog.classes.values():
            known |= set(c.attrs)
            known |= {x.id for x in ast.walk(c.node)
                      if isinstance(x, ast.Name)
                      and isinstance(x.ctx, ast.Store)}
        unknown, sites = {}, 0
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    sites += 1
                    if n.attr not in known:
                        unknown.setdefault(n.attr, []).append((m, n))
        missing = set(unknown) - mentioned(self.prog, set(unknown))
        self.chk.stats["attribute reads"] = sites
        self.chk.ob("attribute exists", "gpkit",
                    "%i attribute uses" % sites, True)
        for name in sorted(missing):
            for m, n in unknown[name]:
                if caught_by(n, self.parents[m.name],
                             ("AttributeError", "Exception")):
                    continue
                f = self.func_at(m, n.lineno)
                self.chk.ob("attribute exists", f, ast.unparse(n), False,
                            "nothing in the package or the libraries it "
                            "imports has an attribute %s" % name, n.lineno)
        self.own_attributes()

    def own_attributes(self):
        "self.x where neither the class, its bases nor its subclasses have x."
        stored = set()
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and not isinstance(
                        n.ctx, ast.Load):
                    stored.add(n.attr)
                elif isinstance(n, ast.Call) and ast.unparse(
                        n.func) == "setattr" and len(n.args) > 1 and \
                        isinstance(n.args[1], ast.Constant):
                    stored.add(n.args[1].value)
        for f in self.prog.all_functions():
            if f.cls is None or f.parent is not None or f.is_static or \
                    not f.params():
                continue
            family = set()
            for sub in self.prog.subclasses(f.cls.qual):
                family |= set(self.prog.mro(sub))
            external = [q for q in family if q not in self.prog.classes
                        and q not in ("object", None)]
            dirs = set(dir(object)) | {"__dict__"}
            if f.is_classmethod or f.name == "__new__":
                dirs |= set(dir(type))
            if not all(hasattr(builtins, q) for q in external):
                continue
            for q in external:
                dirs |= set(dir(getattr(builtins, q)))
            classes = [self.prog.classes[q] for q in family
                       if q in self.prog.classes]
            if any(k in c.methods for c in classes
                   for k in ("__getattr__", "__getattribute__")) or any(
                       c.metaclass for c in classes):
                continue
            own = stored | dirs
            for c in classes:
                own |= set(c.methods) | set(c.attrs)
                own |= {x.id for x in ast.walk(c.node)
                        if isinstance(x, ast.Name)
                        and isinstance(x.ctx, ast.Store)}
            me = f.params()[0]
            if me in local_names(f.node):
                continue
            for n in walk_shallow(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id == me and \
                        isinstance(n.ctx, ast.Load):
                    ok = n.attr in own or caught_by(
                        n, self.parents[f.module.name],
                        ("AttributeError", "Exception")) or asked(f, n)
                    self.chk.ob("own attribute exists", f, ast.unparse(n), ok,
                                "no class of the family of %s has or stores it"
                                % f.cls.name, n.lineno)

    # -- calls --------------------------------------------------------------
    def target(self, f, call):
        "The package function a call certainly goes to, or None."
        fn = call.func
        if isinstance(fn, ast.Name):
            if fn.id in params(f.node) | local_names(f.node):
                return f.nested.get(fn.id) if not (
                    fn.id in params(f.node)) else None
            up = f.parent
            while up is not None:
                if fn.id in params(up.node) | local_names(up.node):
                    return up.nested.get(fn.id)
                up = up.parent
            q = self.prog.resolve(f.module, fn.id)
            return self.prog.functions.get(q)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            if f.cls is not None and f.parent is None and f.params() and \
                    fn.value.id == f.params()[0] and not f.is_static:
                return self.prog.find_method(f.cls.qual, fn.attr)
            kind = f.module.names.get(fn.value.id)
            if kind and kind[1] in self.prog.modules and \
                    fn.value.id not in params(f.node) | local_names(f.node):
                q = self.prog.canonical(kind[1] + "." + fn.attr)
                return self.prog.functions.get(q)
        return None


def asked(f, n):
    "Whether a function asks hasattr/getattr for the attribute it reads."
    for c in walk_shallow(f.node):
        if isinstance(c, ast.Call) and ast.unparse(c.func) in (
                "hasattr", "getattr") and len(c.args) > 1 and isinstance(
                    c.args[1], ast.Constant) and c.args[1].value == n.attr:
            return True
    return False


def numpy_names():
    "Public members of the installed numpy, from its stub; None if absent."
    for path in sorted(glob.glob(os.path.join(SITE, "numpy/__init__.pyi"))):
        try:
            with open(path, encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            return None
        out = {"random", "linalg", "fft", "testing", "ma", "polynomial",
               "matlib", "lib", "core", "ctypeslib", "dtypes", "exceptions",
               "emath", "rec", "char", "polynomial", "version", "typing"}
        for n in ast.walk(tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign)
                          else [n.target]):
                    out |= {x.id for x in ast.walk(t)
                            if isinstance(x, ast.Name)}
            elif isinstance(n, ast.If):
                for x in ast.walk(n):
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        out.add(x.name)
                    elif isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Store):
                        out.add(x.id)
        return out - {"Any", "Generic", "overload"}
    return None


def array_methods():
    "Methods of arrays and of units' quantities, roughly."
    out = {"to", "to_base_units", "ito", "units", "magnitude", "sub", "solve",
           "plot", "table", "result", "diff", "key", "str_without", "hmap"}
    for path in sorted(glob.glob(os.path.join(SITE, "numpy/__init__.pyi"))):
        try:
            with open(path, encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            return out
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                out |= {b.name for b in n.body
                        if isinstance(b, ast.FunctionDef)}
    return out


def mentioned(prog, names):
    "Those of names that appear in the libraries the package imports."
    if not names:
        return set()
    roots = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                roots |= {a.name.split(".")[0] for a in n.names}
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                roots.add(n.module.split(".")[0])
    roots -= {"gpkit"}
    import sys
    rx = re.compile(r"\b(%s)\b" % "|".join(map(re.escape, names)))
    found = set()
    places = [os.path.dirname(os.__file__)] + glob.glob(SITE)
    for name in names:
        for mod in list(sys.modules.values()):
            if hasattr(mod, name):
                found.add(name)
    if not (names - found):
        return found
    for place in places:
        for r in sorted(roots):
            top = os.path.join(place, r)
            files = [top + ".py"] if os.path.exists(top + ".py") else [
                os.path.join(d, fn) for d, _, fns in os.walk(top)
                for fn in fns if fn.endswith((".py", ".pyi"))]
            for path in files:
                try:
                    with open(path, encoding="utf-8", errors="ignore") as fh:
                        found |= set(rx.findall(fh.read()))
                except OSError:
                    continue
                if not (names - found):
                    return found
    return found


# -- templates ------------------------------------------------------------------
class Kinds:
    "What kind of value an expression certainly is."

    def __init__(self, f, tree, p):
        self.f, self.p = f, p
        self.assigned, self.spoiled = {}, set()
        if f is not None:
            self.spoiled = params(f.node)
            a = f.node.args
            if a.vararg:
                self.assigned.setdefault(a.vararg.arg, []).append("tuple")
                self.spoiled = self.spoiled - {a.vararg.arg}
            if a.kwarg:
                self.assigned.setdefault(a.kwarg.arg, []).append("dict")
                self.spoiled = self.spoiled - {a.kwarg.arg}
        nodes = walk_shallow(f.node) if f is not None else ast.walk(tree)
        for n in nodes:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigned.setdefault(t.id, []).append(n.value)
                    else:
                        self.spoil(t, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.spoil(n.target)
            elif isinstance(n, ast.AugAssign):
                self.spoil(n.target)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                self.spoil(n.optional_vars)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.spoiled.add(n.name)
            elif isinstance(n, ast.NamedExpr):
                self.spoil(n.target)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.spoiled.add(n.name)
        self.busy = set()

    def spoil(self, t, value=None):
        if value is not None and isinstance(t, ast.Tuple) and isinstance(
                value, ast.Tuple) and len(t.elts) == len(value.elts):
            for a, b in zip(t.elts, value.elts):
                if isinstance(a, ast.Name):
                    self.assigned.setdefault(a.id, []).append(b)
                else:
                    self.spoil(a)
            return
        self.spoiled |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)
                         and not isinstance(x.ctx, ast.Load)}

    def values(self, name):
        "Every expression a name can hold, or None."
        if name in self.spoiled or name not in self.assigned:
            return None
        return self.assigned[name]

    def of(self, e):
        if isinstance(e, str):
            return e
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return "num"
            if e.value is None:
                return "none"
            return {str: "str", int: "num", float: "num"}.get(type(e.value))
        if isinstance(e, ast.JoinedStr):
            return "str"
        if isinstance(e, ast.Tuple):
            return "tuple"
        if isinstance(e, (ast.List, ast.ListComp)):
            return "list"
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return "dict"
        if isinstance(e, (ast.Set, ast.SetComp)):
            return "set"
        if isinstance(e, ast.GeneratorExp):
            return "generator"
        if isinstance(e, ast.Compare):
            return None                     # arrays compare to arrays
        if isinstance(e, ast.BinOp):
            left = self.of(e.left)
            if isinstance(e.op, ast.Mod) and left == "str":
                return "str"
            if isinstance(e.op, ast.Add) and left in ("str", "tuple", "list"):
                return left
            if isinstance(e.op, ast.Add) and self.of(e.right) == "str":
                return "str"
            if isinstance(e.op, ast.Mult) and "str" in (left,
                                                        self.of(e.right)):
                return "str"
            if left == "num" and self.of(e.right) == "num":
                return "num"
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.of(e.body), self.of(e.orelse)
            return a if a == b else None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                own = self.f is not None and (
                    e.func.id in params(self.f.node) | local_names(self.f.node))
                if own or (self.f is not None and self.p.prog.resolve(
                        self.f.module, e.func.id)):
                    return None
                return {"str": "str", "repr": "str", "len": "num",
                        "int": "num", "float": "num", "tuple": "tuple",
                        "list": "list", "dict": "dict", "set": "set",
                        "sorted": "list", "ord": "num", "chr": "str",
                        "id": "num"}.get(e.func.id)
            if isinstance(e.func, ast.Attribute) and self.of(
                    e.func.value) == "str":
                return {"join": "str", "format": "str", "strip": "str",
                        "rstrip": "str", "lstrip": "str", "lower": "str",
                        "upper": "str", "replace": "str", "split": "list",
                        "title": "str", "capitalize": "str",
                        "splitlines": "list", "count": "num", "find": "num",
                        "index": "num", "ljust": "str", "rjust": "str",
                        "center": "str"}.get(e.func.attr)
            return None
        if isinstance(e, ast.Name):
            vals = self.values(e.id)
            if not vals or e.id in self.busy:
                return None
            self.busy.add(e.id)
            kinds = {self.of(v) for v in vals}
            self.busy.discard(e.id)
            return kinds.pop() if len(kinds) == 1 else None
        if isinstance(e, ast.Attribute) and e.attr == "shape":
            return "tuple"
        if isinstance(e, ast.Attribute) and e.attr == "__name__":
            return "str"
        return None

    def text(self, e, depth=0):
        "The string constants an expression can be, or None."
        if depth > 6:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [e.value]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.text(e.left, depth + 1), self.text(e.right, depth + 1)
            if a is None or b is None:
                return None
            return [x + y for x in a for y in b][:16]
        if isinstance(e, ast.IfExp):
            a = self.text(e.body, depth + 1)
            b = self.text(e.orelse, depth + 1)
            return None if a is None or b is None else (a + b)[:16]
        if isinstance(e, ast.Name):
            vals = self.values(e.id)
            if vals is None and self.f is not None and e.id not in (
                    params(self.f.node) | local_names(self.f.node)):
                vals = self.f.module.assigns.get(e.id)
            if not vals:
                return None
            out = []
            for v in vals:
                t = self.text(v, depth + 1) if isinstance(v, ast.AST) else None
                if t is None:
                    return None
                out.extend(t)
            return out[:16]
        return None


def conversions(template):
    "[(key, type)] of a % template, or a complaint."
    out, i = [], 0
    while True:
        i = template.find("%", i)
        if i < 0:
            return out
        m = CONV.match(template, i)
        if m is None:
            return "incomplete format"
        kind = m.group("type")
        if kind == "%":
            if m.group("key") is None:
                i = m.end()
                continue
            out.append((m.group("key"), "%"))
        elif kind not in "diouxXeEfFgGcrsa":
            return "unsupported conversion %%%s" % kind
        for g in ("width", "prec"):
            if m.group(g) == "*":
                out.append((None, "*"))
        out.append((m.group("key"), kind))
        i = m.end()


def templates(chk, p):
    for m in chk.prog.modules.values():
        kinds = {}
        for n in ast.walk(m.tree):
            is_mod = isinstance(n, ast.BinOp) and isinstance(
                n.op, (ast.Mod, ast.Add))
            is_fmt = (isinstance(n, ast.Call)
                      and isinstance(n.func, ast.Attribute)
                      and n.func.attr == "format")
            is_exc = isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call)
            is_spec = isinstance(n, ast.FormattedValue) and isinstance(
                n.format_spec, ast.JoinedStr)
            if not (is_mod or is_fmt or is_exc or is_spec):
                continue
            f = p.func_at(m, n.lineno)
            key = getattr(f, "qual", f)
            if key not in kinds:
                kinds[key] = Kinds(f if hasattr(f, "node") else None,
                                   m.tree, p)
            k = kinds[key]
            if is_exc:
                uninterpolated(chk, f, n, k)
                continue
            if is_spec:
                spec = n.format_spec.values
                if len(spec) == 1 and isinstance(spec[0], ast.Constant):
                    kind, c = k.of(n.value), str(spec[0].value)[-1:]
                    ok = n.conversion != -1 or not (
                        (c in "bcdeEfFgGnoxX%" and kind in (
                            "str", "tuple", "list", "dict", "none", "set"))
                        or (c == "s" and kind in ("num", "tuple", "list",
                                                  "dict", "none", "set")))
                    chk.ob("template", f, short(n.value), ok,
                           "a %s is formatted as %r" % (
                               kind, spec[0].value), n.lineno)
                continue
            if is_fmt:
                texts = k.text(n.func.value) or held(n.func.value, n, p)
                for t in texts or ():
                    why = format_call(t, n)
                    chk.ob("template", f, short(n), why is None, why, n.lineno)
                continue
            if isinstance(n.op, ast.Add):
                a, b = k.of(n.left), k.of(n.right)
                if "str" in (a, b) and a and b:
                    chk.ob("template", f, short(n), a == b,
                           "a string and a %s are added" % (
                               b if a == "str" else a), n.lineno)
                continue
            texts = k.text(n.left) or held(n.left, n, p)
            for t in texts or ():
                why = percent(t, n.right, k) or nothing(
                    t, n.right, p.states.get(id(n), ()))
                chk.ob("template", f, short(n), why is None, why, n.lineno)


def held(e, site, p):
    "The strings a name holds on the paths to a site."
    if not isinstance(e, ast.Name):
        return ()
    return sorted({s.env[e.id] for s in p.states.get(id(site), ())
                   if isinstance(s.env.get(e.id), str)})


def short(n):
    s = ast.unparse(n)
    return s if len(s) < 120 else s[:117] + "..."


def percent(template, right, k):
    "Why a % template and its values disagree, or None."
    convs = conversions(template)
    if isinstance(convs, str):
        return "the template %r has an %s" % (template, convs)
    keyed = [c for c in convs if c[0] is not None]
    vals = None
    if isinstance(right, ast.Name):
        options = k.values(right.id)
        if options and all(isinstance(o, ast.AST) for o in options):
            for o in options:
                if isinstance(o, (ast.Tuple, ast.Dict)):
                    why = percent(template, o, k)
                    if why:
                        return why
            if all(isinstance(o, (ast.Tuple, ast.Dict)) for o in options):
                return None
    if keyed:
        if k.of(right) in ("tuple", "str", "num", "list"):
            return "the template %r needs a mapping" % template
        have = None
        if isinstance(right, ast.Dict) and all(
                isinstance(x, ast.Constant) for x in right.keys):
            have = {x.value for x in right.keys}
        if isinstance(right, ast.Call) and ast.unparse(right.func) == "dict" \
                and not right.args and all(x.arg for x in right.keywords):
            have = {x.arg for x in right.keywords}
        if isinstance(right, ast.Call) and ast.unparse(right.func) == \
                "locals" and k.f is not None:
            have = params(k.f.node) | local_names(k.f.node)
        if have is not None:
            for key, _ in keyed:
                if key not in have:
                    return "the template %r names %r, which is not given" % (
                        template, key)
        return None
    if isinstance(right, ast.Tuple):
        if any(isinstance(x, ast.Starred) for x in right.elts):
            n = sum(not isinstance(x, ast.Starred) for x in right.elts)
            if n > len(convs):
                return "the template %r takes %i values, at least %i are " \
                    "given" % (template, len(convs), n)
            return None
        if len(right.elts) != len(convs):
            return "the template %r takes %i values, %i are given" % (
                template, len(convs), len(right.elts))
        vals = right.elts
    else:
        kind = k.of(right)
        if kind == "tuple":
            if isinstance(right, (ast.Name, ast.Attribute, ast.Call)):
                if len(convs) == 1:
                    return "a tuple's items are taken for the values of %r" \
                        % template
            return None
        if isinstance(right, ast.BinOp):
            return None if kind is None or len(convs) == 1 else (
                "the template %r takes %i values, one is given"
                % (template, len(convs)))
        certain = kind in ("str", "num", "list", "none")
        if certain and len(convs) != 1:
            return "the template %r takes %i values, one is given" % (
                template, len(convs))
        if len(convs) > 1 and kind is None and isinstance(right, ast.Name) \
                and k.f is not None and not is_new(k.f) and \
                right.id in params(k.f.node) - local_names(k.f.node):
            return "the template %r takes %i values, an argument is given" \
                % (template, len(convs))
        if not convs and kind is None and not isinstance(
                right, (ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
            return "the template %r takes no values" % template
        if not convs and isinstance(right, (ast.Name, ast.Attribute)):
            return "the template %r takes no values" % template
        vals = [right] if len(convs) == 1 else []
    for (_, c), v in zip(convs, vals):
        kind = k.of(v)
        if c in NUMERIC and kind in ("str", "tuple", "list", "dict", "none",
                                     "set", "generator"):
            return "%%%s is given a %s in %r" % (c, kind, template)
    return None


def nothing(template, right, states):
    "Why a number is asked of a name that is None on some path, or None."
    convs = conversions(template)
    vals = right.elts if isinstance(right, ast.Tuple) else [right]
    if len(vals) != len(convs):
        return None
    for (_, c), v in zip(convs, vals):
        if c not in NUMERIC or not isinstance(v, ast.Name):
            continue
        for s in states:
            if s.facts.get(v.id + " is None") is True or (
                    v.id in s.env and s.env[v.id] is None):
                return "%%%s is given %s, which is None on some path" % (
                    c, v.id)
            if isinstance(s.env.get(v.id), str):
                return "%%%s is given %s, which is a string on some path" % (
                    c, v.id)
    return None


def format_call(template, call):
    "Why a .format template and its arguments disagree, or None."
    starred = any(isinstance(a, ast.Starred) for a in call.args)
    double = any(a.arg is None for a in call.keywords)
    names = {a.arg for a in call.keywords}
    try:
        fields = list(string.Formatter().parse(template))
        nested = [x for _, _, spec, _ in fields if spec and "{" in spec
                  for x in string.Formatter().parse(spec)]
    except ValueError as e:
        return "the template %r is malformed (%s)" % (template, e)
    auto, high, manual = 0, -1, False
    for _, field, _, _ in fields + nested:
        if field is None:
            continue
        head = re.split(r"[.\[]", field)[0]
        if head == "":
            auto += 1
        elif head.isdigit():
            manual = True
            high = max(high, int(head))
        elif head not in names and not double:
            return "the template %r names %r, which is not given" % (
                template, head)
    if auto and manual:
        return "the template %r mixes automatic and manual fields" % template
    if not starred and max(auto, high + 1) > len(call.args):
        return "the template %r takes %i values, %i are given" % (
            template, max(auto, high + 1), len(call.args))
    return None


def uninterpolated(chk, f, n, k):
    "raise X('... %s', value): the template is never filled."
    args = n.exc.args
    if len(args) < 2 or any(isinstance(a, ast.Starred) for a in args):
        return
    for t in k.text(args[0]) or ():
        convs = conversions(t)
        chk.ob("template", f, short(n.exc), isinstance(convs, str) or not convs,
               "the values are passed beside the template, not put in it",
               n.lineno)


# -- exceptions -----------------------------------------------------------------
def is_exception(prog, q):
    "True, False or None (unknown) for a qualified or builtin class name."
    if q is None:
        return None
    obj = getattr(builtins, q, None)
    if obj is not None:
        return isinstance(obj, type) and issubclass(obj, BaseException)
    if q in prog.classes:
        found = [is_exception(prog, b) for b in prog.mro(q)[1:]]
        if True in found:
            return True
        return None if None in found else False
    if q in prog.functions:
        return None
    return None


def exceptions(chk, p):
    prog = chk.prog
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Raise) and n.exc is not None:
                f = p.func_at(m, n.lineno)
                e, called = n.exc, False
                if isinstance(e, ast.Call):
                    e, called = e.func, True
                if isinstance(e, ast.Constant) or isinstance(
                        e, (ast.JoinedStr, ast.Tuple, ast.BinOp)):
                    chk.ob("raises an exception", f, short(n), False,
                           "what is raised is not an exception", n.lineno)
                    continue
                if isinstance(e, ast.Name) and hasattr(f, "node") and e.id in (
                        params(f.node) | local_names(f.node)):
                    continue
                q = prog.resolve_dotted(m, e)
                ok = is_exception(prog, q)
                if ok is None and not called and q in prog.functions:
                    ok = False
                chk.ob("raises an exception", f, short(n), ok is not False,
                       "%s is not an exception" % q, n.lineno)
                if called and ok and n.exc.keywords and q not in OPEN and not (
                        q in prog.classes
                        and prog.find_method(q, "__init__")):
                    chk.ob("raises an exception", f, short(n), False,
                           "%s takes no keywords" % q, n.lineno)
            elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                f = p.func_at(m, n.lineno)
                types = (n.type.elts if isinstance(n.type, ast.Tuple)
                         else [n.type])
                for t in types:
                    if not isinstance(t, (ast.Name, ast.Attribute)):
                        continue
                    if isinstance(t, ast.Name) and hasattr(f, "node") and \
                            t.id in params(f.node) | local_names(f.node):
                        continue
                    ok = is_exception(prog, prog.resolve_dotted(m, t))
                    chk.ob("catches an exception", f, ast.unparse(t),
                           ok is not False, "it is not an exception class",
                           n.lineno)


# -- calls ----------------------------------------------------------------------
TRANSPARENT = {"staticmethod", "classmethod", "contextmanager",
               "contextlib.contextmanager"}


def signature(f, bound):
    "(names, required, vararg, keyword-only, required ones, kwarg)."
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    need = len(pos) - len(a.defaults)
    required = pos[:need]
    if bound and pos:
        first = pos.pop(0)
        required = [x for x in required if x != first]
    ko = [x.arg for x in a.kwonlyargs]
    kreq = [x for x, d in zip(ko, a.kw_defaults) if d is None]
    return pos, required, a.vararg is not None, ko, kreq, a.kwarg is not None


def disagree(f, bound, call):
    "Why a call does not fit a signature, or None."
    pos, required, vararg, ko, kreq, kwarg = signature(f, bound)
    star = any(isinstance(a, ast.Starred) for a in call.args)
    double = any(k.arg is None for k in call.keywords)
    given = [a for a in call.args if not isinstance(a, ast.Starred)]
    names = [k.arg for k in call.keywords if k.arg]
    if len(given) > len(pos) and not vararg:
        return "%i positional arguments for %i" % (len(given), len(pos))
    for k in names:
        if k not in pos + ko and not kwarg:
            return "no parameter %s" % k
        if k in pos[:len(given)]:
            return "two values for %s" % k
    if star or double:
        return None
    for i, r in enumerate(pos):
        if r in required and i >= len(given) and r not in names:
            return "no value for %s" % r
    for r in kreq:
        if r not in names:
            return "no value for %s" % r
    return None


def candidates(p, f, call):
    "[(function, bound)] a call may go to, certainly one of them; or None."
    prog, fn = p.prog, call.func
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and \
            ast.unparse(fn.value.func) == "super" and not fn.value.args and \
            f.cls is not None:
        out = []
        for sub in prog.subclasses(f.cls.qual):
            g = prog.find_method(sub, fn.attr, after=f.cls.qual)
            if g is None:
                return None
            out.append((g, not g.is_static))
        return out
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and \
            f.cls is not None and f.parent is None and f.params() and \
            not f.is_static and \
            fn.value.id == f.params()[0] and \
            fn.value.id not in local_names(f.node):
        out = []
        for sub in prog.subclasses(f.cls.qual):
            g = prog.find_method(sub, fn.attr)
            if g is None:
                return None
            out.append((g, not g.is_static))
        # attributes of the same name that are not methods
        for sub in prog.subclasses(f.cls.qual):
            for q in prog.mro(sub):
                c = prog.classes.get(q)
                if c is not None and any(
                        isinstance(x, ast.Attribute) and x.attr == fn.attr
                        and not isinstance(x.ctx, ast.Load)
                        for x in ast.walk(c.node)):
                    return None
        if f.name == "__new__" or f.is_classmethod:
            return [(g, g.is_classmethod) for g, _ in out]
        return out
    if isinstance(fn, ast.Name):
        if fn.id in params(f.node) | local_names(f.node):
            g = p.target(f, call)
            if g is None or len([n for n in walk_shallow(f.node) if isinstance(
                    n, ast.Name) and n.id == fn.id and not isinstance(
                        n.ctx, ast.Load)]):
                return None
            defs = [n for n in walk_shallow(f.node)
                    if isinstance(n, ast.FunctionDef) and n.name == fn.id]
            return [(g, False)] if len(defs) == 1 else None
        q = prog.resolve(f.module, fn.id)
    elif isinstance(fn, ast.Attribute):
        root = fn
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or root.id in (
                params(f.node) | local_names(f.node)):
            return None
        q = prog.resolve_dotted(f.module, fn)
        if q and q.rpartition(".")[0] in prog.classes:
            g = prog.find_method(q.rpartition(".")[0], q.rpartition(".")[2])
            if g is None:
                return None
            return [(g, g.is_classmethod)]
    else:
        return None
    up = f.parent
    while up is not None:
        if isinstance(fn, ast.Name) and fn.id in (
                params(up.node) | local_names(up.node)):
            return None
        up = up.parent
    if q in prog.functions:
        g = prog.functions[q]
        if len([x for x in g.module.assigns.get(g.name, ())]):
            return None
        return [(g, False)]
    if q in prog.classes:
        if any(prog.classes[c].metaclass for c in prog.mro(q)
               if c in prog.classes):
            return None
        if prog.find_method(q, "__new__"):
            return None
        g = prog.find_method(q, "__init__")
        if g is None or prog.classes[q].node.decorator_list:
            return None
        # an external base before the method's class would decide instead
        for c in prog.mro(q):
            if c == g.cls.qual:
                return [(g, True)]
            if c not in prog.classes:
                return None
    return None


def named_methods(p, f, call, builtin):
    "The package's methods of a name no builtin, array or function has."
    fn = call.func
    if not isinstance(fn, ast.Attribute) or fn.attr in builtin or \
            fn.attr.startswith("__"):
        return None
    root = fn.value
    while isinstance(root, ast.Attribute):
        root = root.value
    if isinstance(root, ast.Name):
        kind = f.module.names.get(root.id)
        if kind is not None and root.id not in (
                params(f.node) | local_names(f.node)):
            return None
    out = []
    for c in p.prog.classes.values():
        g = c.methods.get(fn.attr)
        if g is not None:
            if g.is_property or not plain(g):
                return None
            out.append((g, not g.is_static))
        elif fn.attr in c.attrs:
            return None
    return out


def plain(g):
    return all(d.split("(")[0] in TRANSPARENT for d in g.decorators)


def lengths(p, g):
    "The lengths of the tuples a function returns; None if not known."
    if g.is_generator or not plain(g):
        return None
    out = set()
    w = Walk(g.node, params(g.node), Ends(p).of(g))
    if w.out:
        return None
    for n in walk_shallow(g.node):
        if isinstance(n, ast.Return):
            if not isinstance(n.value, ast.Tuple) or any(
                    isinstance(x, ast.Starred) for x in n.value.elts):
                return None
            out.add(len(n.value.elts))
    return out


def calls(chk, p):
    memo = {}
    taken = set(EXTERNAL) | array_methods()
    for t in vars(builtins).values():
        if isinstance(t, type):
            taken |= set(dir(t))
    for m in chk.prog.modules.values():
        taken |= set(m.functions) | p.exports[m.name]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and not isinstance(
                    n.ctx, ast.Load):
                taken.add(n.attr)
            elif isinstance(n, (ast.ImportFrom, ast.Import)):
                taken |= {a.name.split(".")[-1] for a in n.names}
    for f in chk.prog.all_functions():
        for n in walk_shallow(f.node):
            if isinstance(n, ast.Call):
                cands = candidates(p, f, n) or named_methods(p, f, n, taken)
                if not cands or not all(plain(g) for g, _ in cands):
                    continue
                whys = [disagree(g, b, n) for g, b in cands]
                ok = any(w is None for w in whys) or caught_by(
                    n, p.parents[f.module.name], ("TypeError", "Exception"))
                chk.ob("call fits", f, short(n), ok,
                       "%s: %s" % (cands[0][0].qual, whys[0]), n.lineno)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                for t in n.targets:
                    if not isinstance(t, (ast.Tuple, ast.List)) or any(
                            isinstance(x, ast.Starred) for x in t.elts):
                        continue
                    cands = candidates(p, f, n.value)
                    if not cands:
                        continue
                    for g, _ in cands:
                        if g.qual not in memo:
                            memo[g.qual] = lengths(p, g)
                    if any(memo[g.qual] is None for g, _ in cands):
                        continue
                    sizes = set().union(*(memo[g.qual] for g, _ in cands))
                    ok = sizes <= {len(t.elts)} or caught_by(
                        n, p.parents[f.module.name], ("ValueError",))
                    chk.ob("unpacking fits", f, short(n), ok,
                           "%s returns %s values" % (
                               cands[0][0].qual, sorted(sizes)), n.lineno)


# attributes of external objects used on the tree the check was written for
EXTERNAL = set("""
Checkbox DataFrame EACCES Env Error FloatSlider FloatText HBox HTML S_IRWXG
S_IRWXO S_IRWXU T Tab Task Text UnitRegistry Unpickler VBox abs any
appendconesseq appendcons appendvars arange argmax asarray auto_save_png
auto_save_svg boundkey broadcast broadcast_to catch_warnings chdir chmod
compile concatenate conetype constant define dirname divide dual_infeas_cer
dump dumps empty environ err_license_expired err_license_version
err_missing_license_file evalfn expanduser fill_between filterwarnings
finished flatten fr full fx gcf generic get_xticklabels get_yticklabels getcwd
getprimalobj getsolsta getsourcefile getsourcelines getsucslice getsuxslice
getxxslice grid hstack increment_lineno inf infeas_report_auto interact iparam
isdir item iternext itr linspace listdir load locator_params log10
log_presolve makedirs match maxsize mean meshgrid minimize mkdtemp move nanmax
nanmean ndarray nditer newaxis nonzero number objsense observe on
on_link_clicked on_node_clicked on_submit on_trait_change ones onoffkey open
parse pathsep pi prim_infeas_cer putaijlist putclist putconboundlist
putintparam putobjsense putvarboundlist ravel readline rescode reshape
returncode rmdir rmtree search send_state sep set_Stream
set_application_registry set_color set_fontsize set_linestyle set_linewidth
set_title set_visible set_xlabel set_xticks set_ylabel show sign simplefilter
size solsta soltype solutionsummary spines sqrt streamtype subplots
subplots_adjust tick_params transpose unified_diff unravel_index up
version_info view warn where writelines xaxis yaxis zeros
""".split())
