"""C06: effect analysis of process-wide state.  Every write in the package is
traced to the object it lands in; a write that lands in a module's attribute,
a module-level table, a class, a mutable default argument or another library's
options must be a memo (its value determined by its key), a counter, or be
undone: the function holding it is run with every operation able to raise
anything, and the location must hold its first value again at every exit.
Calls that change the process (warning filters, numpy's error state, the
working directory) must be bracketed in the same way."""
import ast

from ..flow import K, Engine, Spec, State, contains, is_const, subterms
from ..model import AnalysisBroken, walk_shallow
from .allrun import everything, root
from .common import judged, shown

TECHNIQUE = "effect analysis: writes traced to process-wide locations"
ASSUMPTIONS = ["formatting, printing and reading the clock do not raise",
               "libraries change no process-wide state unless their call is "
               "one of the known setters"]
MUTATORS = {"update", "append", "extend", "setdefault", "pop", "clear", "add",
            "remove", "discard", "insert", "popitem", "__setitem__", "sort",
            "reverse", "__delitem__", "__ior__", "__iadd__"}
WRITES = ("set", "setitem", "delitem", "delattr", "append", "extend",
          "setdefault")
SETTERS = {"warnings.simplefilter", "warnings.filterwarnings",
           "warnings.resetwarnings", "numpy.seterr", "numpy.seterrcall",
           "numpy.set_printoptions", "os.chdir", "os.umask", "os.putenv",
           "os.unsetenv", "locale.setlocale", "sys.setrecursionlimit",
           "random.seed", "numpy.random.seed", "signal.signal",
           "sys.settrace", "sys.setprofile", "gc.disable", "gc.enable",
           "logging.basicConfig", "logging.disable", "socket.setdefaulttimeout",
           "decimal.setcontext", "atexit.register", "numpy.setbufsize"}
UNDOES = {"warnings.simplefilter": ("warnings.catch_warnings",),
          "warnings.filterwarnings": ("warnings.catch_warnings",),
          "warnings.resetwarnings": ("warnings.catch_warnings",),
          "numpy.seterr": ("numpy.errstate",),
          "numpy.set_printoptions": ("numpy.printoptions",)}
QUIET = {"print", "time.time", "len", "isinstance", "getattr", "hasattr",
         "str", "repr", "type", "id", "time"}
COPIES = {"dict", "list", "set", "tuple", "sorted", "copy", "copy.copy"}
REGISTERS = ("gpkit.globals.NamedVariables",)   # names given to new variables
ENVIRONMENTS = ("gpkit.globals.",)


def run(chk):
    prog = chk.prog
    todo = {}
    for r in everything(chk):
        f = r.func
        name = f.module.name
        if name == "gpkit.build" or name.startswith("gpkit.build."):
            continue
        if environment(f):
            continue
        for e in r.events:
            w = written(e)
            if w is None:
                continue
            chk.stats["writes"] = chk.stats.get("writes", 0) + 1
            where = process_wide(prog, f, w[0])
            if where is None or w[3] == "aug" and \
                    not module_table(prog, where, False):
                continue
            todo.setdefault(f.qual, (f, []))[1].append((e, w, where))
        for e in r.events:
            if e.kind == "call" and setter(e.args[0]):
                todo.setdefault(f.qual, (f, []))[1].append((e, None, None))
    found = {f.qual for f in judged(prog, [f for f, _ in todo.values()])}
    for q in sorted(found | set(todo)):
        f, writes = todo.get(q, (prog.functions.get(q), []))
        if f is None or q not in found or environment(f):
            continue
        judge_writes(chk, f, writes)
        if not writes or any(w is None or not permitted(prog, f, w, where)
                             for e, w, where in writes):
            undone(chk, f)
    chk.need("process-wide-write", 3)
    chk.need("undone", 3)
    passed_on(chk)
    stores(chk)
    defaults(chk)
    options(chk)


def environment(f):
    "What an environment does to the state it manages: C06's other rules."
    return f.module.name == "gpkit.globals" and f.name in (
        "__enter__", "__exit__", "reset_modelnumbers", "__init__")


def setter(t):
    return t[0] == "g" and (t[1] in SETTERS and t[1])


def written(e):
    "(the object written to, key or None, value or None, how)"
    if e.kind == "set":
        return e.args[0], K(e.args[1]), e.args[2], "set"
    if e.kind in ("setitem", "delitem"):
        return e.args[0], e.args[1], (e.args[2] if len(e.args) > 2
                                      else None), e.kind
    if e.kind == "delattr":
        return e.args[0], K(e.args[1]), None, e.kind
    if e.kind == "setdefault":
        return e.args[0], e.args[1], (e.args[2] if len(e.args) > 2
                                      else None), e.kind
    if e.kind in ("append", "extend"):
        return e.args[0], None, e.args[1], e.kind
    if e.kind == "aug" and e.args[0][0] == "g":
        return e.args[0], None, e.args[2], "aug"     # judged if a container
    if e.kind == "call" and e.args[0][0] == "attr" \
            and e.args[0][2] in MUTATORS:
        args = e.args[1]
        how = e.args[0][2]
        if how in ("setdefault", "__setitem__") and len(args) == 2:
            return e.args[0][1], args[0], args[1], "setitem"
        if how == "add" and args:
            return e.args[0][1], args[0], None, "add"
        return e.args[0][1], None, None, how
    if e.kind == "call" and e.args[0][0] == "g" and \
            e.args[0][1].count(".") > 1 and \
            e.args[0][1].rpartition(".")[2] in MUTATORS:
        base, _, how = e.args[0][1].rpartition(".")
        return ("g", base), None, None, how
    if e.kind == "call" and e.args[0] in (("b", "setattr"), ("b", "delattr")) \
            and e.args[1]:
        return e.args[1][0], None, None, "setattr"
    return None


def through_copies(t):
    """The root of a path, seeing through shallow copies that the path takes
    a further step out of."""
    steps = 0
    while True:
        r = root(t)
        if r != t:
            steps += 1
        t = r
        if t[0] == "call" and steps:
            if t[1][0] == "attr" and t[1][2] == "copy" and not t[2]:
                t = t[1][1]
                continue
            if t[1][0] in ("b", "g") and t[1][1] in COPIES and len(t[2]) == 1:
                t = t[2][0]
                continue
        return t


def process_wide(prog, f, base):
    "What process-wide thing a written object is, or None."
    for t in subterms_of_path(base):
        if t[0] == "attr" and t[2] == "__class__" or \
                t[0] == "call" and t[1] == ("b", "type") and len(t[2]) == 1 \
                or t[0] == "classof":
            return "a class"
    r = through_copies(base)
    if r[0] == "g":
        return r[1]
    if r[0] == "b":
        return None if base[0] == "attr" or r[1] in (
            "dict", "list", "set", "super", "object") else r[1]
    if r == ("p", "cls") and f.all_params()[:1] == ["cls"]:
        return "a class"
    if r[0] == "p" and r[1] == "self" and f.cls is not None:
        name = first_step(base)
        if name and class_table(prog, f.cls, name):
            return "%s.%s" % (f.cls.qual, name)
    return None


def subterms_of_path(t):
    while t[0] in ("attr", "sub", "elem", "val", "only", "getattr"):
        yield t
        t = t[1]
    yield t


def first_step(base):
    last = None
    for t in subterms_of_path(base):
        if t[0] == "attr" and t[1] == ("p", "self"):
            last = t[2]
    return last


def class_table(prog, cls, name):
    "A container held by the class itself and never replaced in an instance."
    for sub in [cls] + [c for c in prog.classes.values()
                        if c is not cls and (
                            prog.is_subclass(c.qual, cls.qual) or
                            prog.is_subclass(cls.qual, c.qual))]:
        for s in sub.node.body:
            targets = s.targets if isinstance(s, ast.Assign) else (
                [s.target] if isinstance(s, ast.AnnAssign) and s.value else [])
            for t in targets:
                if isinstance(t, ast.Name) and t.id == name \
                        and container(s.value) and not replaced(prog, name):
                    return s.value
    return None


def container(v):
    return isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp,
                          ast.DictComp, ast.SetComp)) or (
        isinstance(v, ast.Call) and isinstance(v.func, (ast.Name,
                                                        ast.Attribute))
        and (getattr(v.func, "id", None) or v.func.attr) in (
            "dict", "list", "set", "defaultdict", "OrderedDict", "deque",
            "Counter", "WeakValueDictionary"))


def replaced(prog, name):
    for f in prog.all_functions():
        for n in walk_shallow(f.node):
            if isinstance(n, ast.Attribute) and n.attr == name \
                    and isinstance(n.ctx, ast.Store):
                return True
    return False


def roots_of(t):
    return {x for x in subterms(t) if x[0] in ("p", "loopvar", "elem", "key",
                                               "val", "idx", "free")}


def module_table(prog, where, empty=True):
    "The value a module-level name is given, if it is an (empty) container."
    mod, _, name = where.rpartition(".")
    m = prog.modules.get(mod)
    if m is None:
        return None
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == name for t in s.targets):
            if container(s.value) and (not empty or hollow(s.value)):
                return s.value
    return None


def hollow(v):
    "A container that starts empty, as a cache does."
    if isinstance(v, ast.Dict):
        return not v.keys
    if isinstance(v, (ast.List, ast.Set)):
        return not v.elts
    return isinstance(v, ast.Call) and not v.keywords and all(
        isinstance(a, (ast.Name, ast.Lambda)) for a in v.args)


def memo(prog, f, w, where):
    "An entry of a table that starts empty, determined by its key."
    base, key, value, how = w
    if base[0] == "g":
        table = module_table(prog, where)
    elif f.cls is not None and base[0] == "attr" and base[1] == ("p", "self"):
        table = class_table(prog, f.cls, base[2])
    else:
        table = None
    if table is None or not hollow(table):
        return False
    if how == "add":
        return key is not None and not is_const(key)
    if how not in ("setitem", "setdefault") or key is None or value is None \
            or is_const(key):
        return False
    parts = set(key[1]) if key[0] == "tuple" else {key}
    return not roots_of(without(value, parts | {key}))


def without(t, parts):
    "The term with every occurrence of the parts taken out."
    if t in parts:
        return K(None)
    if isinstance(t, tuple):
        return tuple(without(x, parts) for x in t)
    return t


def counter(w):
    base, key, value, how = w
    if how != "set" or value is None:
        return False
    here = ("attr", base, key[2])
    return value[0] == "bin" and value[1] == "+" and here in value[2:] and \
        any(is_const(x) for x in value[2:])


def permitted(prog, f, w, where):
    base, key, value, how = w
    if where.startswith("os.environ"):
        return key == K("PATH")
    if any(where == r or where.startswith(r + ".") for r in REGISTERS):
        return how in ("append", "setitem", "setdefault")
    return memo(prog, f, w, where) or counter(w)



def judge_writes(chk, f, writes):
    for e, w, where in writes:
        if w is None:
            continue
        base, key, value, how = w
        ok = permitted(chk.prog, f, w, where)
        if not ok and how in ("set", "setitem", "delitem", "delattr") and \
                key is not None:
            ok = None       # may still be undone: see `undone`
        chk.ob("process-wide-write", f,
               "%s: %s" % (where, shown(base, 60)), ok is not False,
               "%s %s of %s, which outlives this call and is seen by every "
               "other solve" % (how, "" if key is None else shown(key, 40),
                                where), line=e.line)


class Fragile(Spec):
    "Anything but printing and formatting may raise anything."
    max_states = 3000
    implicit_raises = False

    def relevant(self, ev):
        return ev.kind in ("set", "setitem", "delitem", "with", "endwith") \
            or ev.kind == "call" and (setter(ev.args[0]) or
                                      ev.args[0][0] == "g")

    def may_raise(self, eng, st, frame, what, term):
        if what != "call":
            return ()
        f = term[1]
        if f[0] in ("b", "g") and f[1] in QUIET:
            return ()
        if f[0] == "attr" and f[2] in ("join", "format", "get", "copy",
                                       "update", "append", "items", "keys",
                                       "values"):
            return ()
        if setter(f):
            return ()
        return ("BASE",)


def initial(loc):
    base, step = loc
    if isinstance(step, str):
        return {("attr", base, step[1:])} | (
            {("g", base[1] + step)} if base[0] == "g" else set())
    return {("sub", base, step[1])}


def undone(chk, f):
    "At every exit, process-wide locations hold what they held at the start."
    prog = chk.prog
    eng = Engine(prog, Fragile(prog))
    try:
        outs = eng.run(f)
    except AnalysisBroken as err:
        chk.notes.append("undecided: %s has too many paths (%s)"
                         % (f.qual, err))
        return
    exits = [(st, "returns") for st, _ in outs.ret] + \
        [(st, "raises") for st, _ in outs.exc]
    for st, how in exits:
        for loc, value in sorted(st.heap.items(), key=repr):
            base, step = loc
            if process_wide(prog, f, base) is None:
                continue
            where = process_wide(prog, f, base)
            key = K(step[1:]) if isinstance(step, str) else step[1]
            if permitted(prog, f, (base, key, value,
                                      "set" if isinstance(step, str)
                                      else "setitem"), where):
                continue
            name = shown(base, 60) + (step if isinstance(step, str)
                                      else "[%s]" % shown(key, 40))
            chk.ob("undone", f, name,
                   value in initial(loc) or value[0] == "missing",
                   "%s is left as %s when this function %s%s"
                   % (name, shown(value, 80), how, " " + trail(st)))
        bracketed(chk, f, st, how)


def trail(st):
    return "(line %i)" % st.events[-1].line if st.events else ""


def bracketed(chk, f, st, how):
    "Setters of process state inside a restoring context, or set back."
    open_, sets = [], {}
    for e in st.events:
        if e.kind == "with":
            open_.append(e.args[0])
        elif e.kind == "endwith" and e.args[0] in open_:
            open_.remove(e.args[0])
        elif e.kind == "call" and setter(e.args[0]):
            q = e.args[0][1]
            if any(names(cm) & set(UNDOES.get(q, ())) for cm in open_):
                chk.ob("undone", f, q, True)
                continue
            sets.setdefault(q, []).append(e)
    for q, evs in sets.items():
        last = evs[-1]
        values = last.args[1] + tuple(v for _, v in last.args[2])
        back = len(evs) > 1 and any(
            x[0] == "call" and (x[1] == ("g", q) or x[1][0] == "g" and
                                "get" in x[1][1]) or x[0] == "g"
            for v in values for x in subterms(v))
        chk.ob("undone", f, q, back,
               "%s is called outside a context that undoes it, and is not "
               "set back when this function %s" % (q, how),
               line=last.line)


def names(cm):
    return {x[1] for x in subterms(cm) if x[0] == "g"}


def passed_on(chk):
    "No function that changes its argument is given a process-wide table."
    prog = chk.prog
    runs = everything(chk)
    direct = {}
    for r in runs:
        for e in r.events:
            w = written(e)
            if w is None or w[3] == "set" and e.kind == "set":
                continue
            rt = through_copies(w[0])
            if rt[0] == "p" and rt[1] in r.func.all_params() \
                    and rt[1] not in ("self", "cls"):
                direct.setdefault(r.func.qual, set()).add(rt[1])
    changed = True
    calls = [(r.func, e) for r in runs for e in r.events if e.kind == "call"
             and e.args[0][0] == "g" and e.args[0][1] in prog.functions]
    while changed:
        changed = False
        for f, e in calls:
            g = prog.functions[e.args[0][1]]
            for p, a in bound(g, e):
                if p in direct.get(g.qual, ()) and a[0] == "p" and \
                        a[1] in f.all_params() and \
                        a[1] not in direct.setdefault(f.qual, set()):
                    direct[f.qual].add(a[1])
                    changed = True
    for f, e in calls:
        g = prog.functions[e.args[0][1]]
        if not direct.get(g.qual) or f.module.name == "gpkit.build":
            continue
        for p, a in bound(g, e):
            if p not in direct[g.qual]:
                continue
            rt = through_copies(a)
            chk.ob("passed-on", f, "%s(%s=...)" % (g.name, p),
                   not (rt[0] == "g" and rt[1] not in prog.functions),
                   "%s is given to %s, which changes it"
                   % (shown(a, 60), g.qual), line=e.line)


def bound(g, e):
    params = g.all_params()
    pos = [p for p in params if p not in ("self", "cls")]
    for p, a in zip(pos, e.args[1]):
        yield p, a
    for k, v in e.args[2]:
        if k in params:
            yield k, v


def stores(chk):
    "Module-level names rebound from inside a function."
    n = 0
    for f in chk.prog.all_functions():
        if ".tests." in f.qual or f.module.name == "gpkit.build":
            continue
        declared = {x for s in walk_shallow(f.node)
                    if isinstance(s, ast.Global) for x in s.names}
        n += 1
        for s in walk_shallow(f.node):
            if isinstance(s, ast.Assign):
                targets = s.targets
            elif isinstance(s, ast.AugAssign):
                targets = [s.target]
            else:
                continue
            for t in targets:
                if not isinstance(t, ast.Name) or t.id not in declared:
                    continue
                ok = isinstance(s, ast.AugAssign) and \
                    isinstance(s.op, ast.Add) and \
                    isinstance(s.value, ast.Constant)
                params = {x.id for x in ast.walk(s.value)
                          if isinstance(x, ast.Name)}
                if isinstance(s, ast.Assign) and not f.all_params() and \
                        not params & set(f.locals if hasattr(f, "locals")
                                         else ()):
                    ok = True     # computed from nothing: the same every time
                chk.ob("global-stores", f, t.id, ok,
                       "rebinds the module-level name %s" % t.id,
                       line=s.lineno)
    chk.stats["functions searched for global stores"] = n
    chk.ob("global-stores", "gpkit", "functions searched", n > 300,
           "too few functions found")


def defaults(chk):
    "A default argument that can be changed is never changed."
    for r in everything(chk):
        f = r.func
        a = f.node.args
        pairs = list(zip(reversed(a.posonlyargs + a.args),
                         reversed(a.defaults))) + [
            (k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d]
        for arg, d in pairs:
            if not container(d):
                continue
            bad, line = None, None
            for e in r.events:
                w = written(e)
                if w and through_copies(w[0]) == ("p", arg.arg):
                    bad, line = e, e.line
            chk.ob("default-arguments", f, arg.arg, bad is None,
                   "the default value of %s is changed, and the change is "
                   "seen by every later call" % arg.arg, line=line)


OPTION = ("solver", "kwargs", "verbosity", "solveargs", "skipsweepfailures")


def options(chk):
    """The options of a solve are not kept in the object that solves, where a
    later solve would read them."""
    prog = chk.prog
    runs = [r for r in everything(chk)
            if any(p in r.func.all_params() for p in ("solver", "kwargs",
                                                      "verbosity"))]
    reads = {}
    for f in prog.all_functions():
        for n in walk_shallow(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                reads.setdefault(n.attr, set()).add(f.qual)
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                reads.setdefault(n.value, set()).add(f.qual)
    solves = {r.func.qual for r in runs}
    for r in runs:
        mine = [("p", p) for p in r.func.all_params() if p in OPTION]
        for e in r.events:
            if e.kind != "set" or root(e.args[0]) != ("p", "self") or \
                    r.func.name == "__init__":
                continue
            kept = [p for p in mine if holds(e.args[2], p)]
            chk.ob("options-kept", r.func, "self." + e.args[1],
                   not (kept and reads.get(e.args[1], set()) & solves),
                   "an option of this solve is kept as %s, which later "
                   "solves read" % e.args[1], line=e.line)


def holds(v, p):
    "The value is the parameter, part of it, or a choice involving it."
    if v == p:
        return True
    if v[0] in ("attr", "sub", "val", "getattr", "default", "phi"):
        return any(isinstance(x, tuple) and x and isinstance(x[0], str) and
                   holds(x, p) for x in v[1:])
    if v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("copy", "get"):
        return holds(v[1][1], p)
    if v[0] == "call" and v[1][0] in ("b", "g") and v[1][1] in COPIES:
        return any(holds(x, p) for x in v[2])
    return False
