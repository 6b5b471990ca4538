"""C05: each environment class is abstractly entered and left again (once,
nested in another instance, and nested in itself), from a symbolic outer
setting: on every path through __enter__ and __exit__, with and without an
exception in flight, the setting must be the very term it was, and __exit__
must return a false value.  Settings are discovered as the class attributes
that __enter__ writes; nothing outside __enter__/__exit__ (and helpers only
they use) may write them, and code that calls these methods by hand must
restore the settings on every exit."""
import ast

from ..flow import ABSENT, K, NONE, Engine, Spec, State, is_const
from ..model import AnalysisBroken, walk_shallow
from .common import ENVIRONMENTS, callers_closure, chain, shown

ASSUMPTIONS = ["bodies of with-blocks leave settings balanced (shown for each"
               " environment by induction on nesting)",
               "the with statement calls __exit__ on every exit"]


class EnvSpec(Spec):
    loop_mode = "summary"
    inlined_under = ("gpkit.globals",)
    implicit_raises = False

    def __init__(self, prog, classes):
        super().__init__(prog)
        self.classes = classes          # instance term -> class
        self.raising = False

    def type_of(self, term, st):
        return self.classes.get(term)

    def relevant(self, ev):
        return ev.kind in ("set", "setitem", "delitem")

    def on_attr(self, eng, st, frame, base, attr):
        cls = self.classes.get(base)
        if cls and (base, "." + attr) not in st.heap:
            for q in self.prog.mro(cls):
                if (("g", q), "." + attr) in st.heap:
                    return st.heap[(("g", q), "." + attr)]
                c = self.prog.classes.get(q)
                if c and attr in c.attrs and attr not in c.methods:
                    return ("attr", ("g", q), attr)
        return None

    def on_sub(self, eng, st, frame, base, key):
        # looking up a default dictionary creates the entry
        if base[0] == "attr" and base[1][0] == "g":
            c = self.prog.classes.get(base[1][1])
            v = c.attrs.get(base[2], [None])[-1] if c else None
            if isinstance(v, ast.Call) and "defaultdict" in ast.dump(v.func):
                loc = (base, ("k", simp(key)))
                if st.heap.get(loc, ABSENT) == ABSENT:
                    st = st.copy()
                    st.heap[loc] = ("sub", base, simp(key))
                return [(st, st.heap[loc])]
        return None

    def on_write(self, eng, st, frame, base, key, value, node):
        if value == ABSENT and base[0] == "attr" and base[1][0] == "g":
            loc = (base, ("k", simp(key)))
            if st.heap.get(loc, ABSENT) == ABSENT:
                return ("KeyError",)
        return ()

    def may_raise(self, eng, st, frame, what, term):
        if self.raising and what == "call" and term[1][0] != "b":
            return ("BASE",)
        return ()


def flat(t):
    "A concatenation of tuples as a list of parts: ('el', x) or ('seq', X)."
    if t[0] == "tuple":
        out = []
        for x in t[1]:
            if x[0] == "*":
                out.extend(flat(simp(x[1])))
            else:
                out.append(("el", x))
        return out
    if t[0] == "bin" and t[1] == "+":
        return flat(simp(t[2])) + flat(simp(t[3]))
    if t[0] == "call" and t[1] in (("b", "tuple"), ("b", "list")) and len(t[2]) == 1:
        return flat(simp(t[2][0]))
    return [("seq", t)]


def unflat(parts):
    if len(parts) == 1 and parts[0][0] == "seq":
        return parts[0][1]
    if all(p[0] == "el" for p in parts):
        return ("tuple", tuple(p[1] for p in parts))
    return ("concat", tuple(parts))


def simp(t):
    "Normal form of sequence terms: slices of concatenations are taken."
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return t
    if t[0] == "concat":
        return t
    if t[0] == "tuple" or (t[0] == "bin" and t[1] == "+"):
        parts = flat(t)
        if len(parts) == 1 and parts[0][0] == "seq" and parts[0][1] == t:
            return t
        return unflat(parts)
    if t[0] == "sub" and t[2][0] == "slice":
        base = simp(t[1])
        parts = list(base[1]) if base[0] == "concat" else flat(base)
        lo, hi, step = t[2][1:4]
        if step in (NONE, K(1)):
            n = _index(hi, t[1], base)
            if lo in (NONE, K(0)) and n is not None and n < 0 and \
                    all(p[0] == "el" for p in parts[n:]) and len(parts) >= -n:
                return unflat(parts[:n])
            m = _index(lo, t[1], base)
            if hi == NONE and m is not None and m > 0 and \
                    all(p[0] == "el" for p in parts[:m]) and len(parts) >= m:
                return unflat(parts[m:])
    return t


def _index(t, orig, base):
    if is_const(t) and isinstance(t[2], int):
        return t[2]
    if t[0] == "bin" and t[1] == "-" and is_const(t[3]) and \
            t[2][0] == "call" and t[2][1] == ("b", "len") and \
            simp(t[2][2][0]) in (orig, base):
        return -t[3][2]
    return None


def settings_of(prog, cls):
    "Class attributes that entering the environment writes."
    ent = prog.method(cls, "__enter__")
    spec = EnvSpec(prog, {("p", "self"): cls})
    eng = Engine(prog, spec)
    out = {}
    rets, excs = chain(eng, ent, State(), ("p", "self"), ())
    for st, _ in list(rets) + list(excs):
        for (b, loc), v in st.heap.items():
            if b[0] == "g" and b[1] in prog.classes and isinstance(loc, str):
                out[(b[1], loc[1:])] = True
    return sorted(out)


def run(chk):
    prog = chk.prog
    all_settings = {}
    for cls in ENVIRONMENTS:
        cls = prog.cls(cls).qual
        ent, ext = prog.method(cls, "__enter__"), prog.method(cls, "__exit__")
        settings = settings_of(prog, cls)
        if not settings:
            raise AnalysisBroken("%s.__enter__ sets nothing" % cls)
        for s in settings:
            all_settings.setdefault(s, set()).update(
                [ent.qual, ext.qual])
        chk.analysed(ent, ext)
        balance(chk, prog, cls, ent, ext, settings)
    writers(chk, prog, all_settings)
    by_hand(chk, prog, all_settings)
    chk.need("restored-on-exit", 12)


def balance(chk, prog, cls, ent, ext, settings):
    init = prog.find_method(cls, "__init__")
    scenarios = {
        "entered once": [("a", "in"), ("a", "out")],
        "nested in another instance":
            [("a", "in"), ("b", "in"), ("b", "out"), ("a", "out")],
        "nested in itself":
            [("a", "in"), ("a", "in"), ("a", "out"), ("a", "out")],
        "used again": [("a", "in"), ("a", "out"), ("a", "in"), ("a", "out")],
    }
    for title, steps in scenarios.items():
        for exc in (False, True):
            classes = {}
            inst = {}
            spec = EnvSpec(prog, classes)
            eng = Engine(prog, spec)
            st = State()
            outer = {}
            for q, a in settings:
                outer[(q, a)] = ("outer", q.rpartition(".")[2] + "." + a)
                st.heap[(("g", q), "." + a)] = outer[(q, a)]
            states = [(st, (dict(outer),))]
            for name in dict.fromkeys(s[0] for s in steps):
                t = ("new", cls, (), (), -ord(name))
                inst[name] = t
                classes[t] = cls
                if init is not None:
                    nxt = []
                    for s, stack in states:
                        params = init.params()[1:]
                        r, _ = chain(eng, init, s, t,
                                     [("p", name + p) for p in params])
                        nxt.extend((s2, stack) for s2, _ in r)
                    states = nxt
            chk.analysed(eng.stats["functions"])
            problem = None
            falsy = True
            for name, what in steps:
                nxt = []
                for s, stack in states:
                    if what == "in":
                        cur = {k: simp(s.heap[(("g", k[0]), "." + k[1])])
                               for k in settings}
                        r, x = chain(eng, ent, s, inst[name], ())
                        nxt.extend((s2, stack + (cur,)) for s2, _ in r)
                        continue
                    if exc:
                        cls_t = ("g", "builtins.Exception")
                        args = [cls_t, ("new", "Exception", (), (), -1),
                                ("p", "tb")]
                    else:
                        args = [NONE, NONE, NONE]
                    r, x = chain(eng, ext, s, inst[name], args)
                    for s2, e in x:
                        problem = problem or (
                            "leaving raises %s at line %s" % (e.cls, e.line))
                    for s2, v in r:
                        if exc and eng.truth(v, s2) is not False:
                            falsy = False
                        want = stack[-1]
                        for k in settings:
                            got = simp(s2.heap[(("g", k[0]), "." + k[1])])
                            if got != want[k]:
                                problem = problem or (
                                    "%s is left as %s instead of %s" % (
                                        ".".join(k), shown(got),
                                        shown(want[k])))
                        nxt.append((s2, stack[:-1]))
                states = nxt
            if not states and problem is None:
                raise AnalysisBroken("no path through %s" % ext.qual)
            way = "by an exception" if exc else "normally"
            chk.ob("restored-on-exit", ext, "%s %s, left %s" % (
                cls.rpartition(".")[2], title, way), problem is None, problem)
            if exc:
                chk.ob("exception-not-swallowed", ext, "%s %s" % (
                    cls.rpartition(".")[2], title), falsy,
                    "__exit__ may return a true value, which would swallow"
                    " the exception")


def writers(chk, prog, settings):
    names = {}
    for (q, a), funcs in settings.items():
        names.setdefault(a, []).append(q)
    allowed = {}
    for (q, a), funcs in settings.items():
        allowed[(q, a)] = callers_closure(prog, funcs)
    for f in prog.all_functions():
        own = f.cls.qual if f.cls else None
        params = f.params()
        for n in walk_shallow(f.node):
            hits = []
            if isinstance(n, ast.Attribute) and n.attr in names and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                hits.append((n.attr, n.value))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in ("setattr", "delattr") and len(n.args) >= 2 \
                    and isinstance(n.args[1], ast.Constant) and \
                    n.args[1].value in names:
                hits.append((n.args[1].value, n.args[0]))
            for attr, base in hits:
                for q in names[attr]:
                    sub = False
                    if isinstance(base, (ast.Name, ast.Attribute)):
                        r = prog.resolve_dotted(f.module, base)
                        sub = r in prog.classes and prog.is_subclass(r, q)
                    if isinstance(base, ast.Name) and params and own and \
                            base.id == params[0] and prog.is_subclass(own, q) \
                            and f.is_classmethod:
                        sub = True
                    if not sub:
                        continue
                    chk.ob("only-environments-write", f,
                           "write to %s.%s" % (q.rpartition(".")[2], attr),
                           f.qual in allowed[(q, attr)],
                           "only entering and leaving the environment may"
                           " change this setting", line=n.lineno)
    for mod in prog.modules.values():   # module level statements
        for st in mod.tree.body:
            for n in ast.walk(st):
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    break
                if isinstance(n, ast.Attribute) and n.attr in names and \
                        isinstance(n.ctx, ast.Store):
                    r = prog.resolve_dotted(mod, n.value)
                    for q in names[n.attr]:
                        if r == q:
                            chk.ob("only-environments-write", mod.name,
                                   "write to %s.%s" % (q, n.attr), False,
                                   "module-level write", line=n.lineno)


def by_hand(chk, prog, settings):
    "Functions that call __enter__/__exit__ themselves."
    envs = {q for q, _ in settings}
    for f in prog.all_functions():
        hand = [n for n in walk_shallow(f.node) if isinstance(n, ast.Call)
                and isinstance(n.func, ast.Attribute)
                and n.func.attr in ("__enter__", "__exit__", "enter_context")]
        if not hand or (f.cls and f.name in ("__enter__", "__exit__")):
            continue
        spec = EnvSpec(prog, {})
        spec.raising = True
        base_type = spec.type_of

        def type_of(term, st, base_type=base_type):
            if term[0] == "new" and term[1] in prog.classes:
                return term[1]
            return base_type(term, st)
        spec.type_of = type_of
        spec.construct = lambda eng, st, frame, qual, *a: qual in envs
        old_attr = spec.on_attr

        def on_attr(eng, st, frame, base, attr, old=old_attr, spec=spec):
            if base[0] == "new":
                spec.classes.setdefault(base, base[1])
            return old(eng, st, frame, base, attr)
        spec.on_attr = on_attr
        eng = Engine(prog, spec)

        def init(st, frame):
            for q, a in settings:
                st.heap[(("g", q), "." + a)] = ("outer", a)
        outs = eng.run(f, init=init)
        bad = None
        for st, e in [(s, None) for s, _ in outs.ret] + list(outs.exc):
            for q, a in settings:
                if simp(st.heap[(("g", q), "." + a)]) != ("outer", a):
                    bad = "%s is not restored when this function %s" % (
                        a, "raises (line %s)" % e.line if e else "returns")
        chk.ob("entered-by-hand", f, "explicit enter/exit", bad is None, bad,
               line=hand[0].lineno)
