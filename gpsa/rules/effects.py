"""Ownership and effect analysis: which objects that existed before a call a
value may be (or hold), and what each function does to them.

Every value has levels: its attributes ("a"), its items ("i") and what is one,
two, ... steps inside it.  `Own.own(t, level)` gives the (root, level) pairs of
pre-existing objects (parameters, process-wide things) that sit there.  Calls
are taken through summaries of what every function of the package returns and
changes, computed to a fixpoint over all of them; methods are resolved by name
over all classes."""
import ast

from ..flow import K, is_const
from .allrun import everything

LEVELS = ("a", "i", 1, 2, 3, 4)
TOP = 4
MUTATORS = {"update", "append", "extend", "setdefault", "pop", "clear", "add",
            "remove", "discard", "insert", "popitem", "__setitem__", "sort",
            "reverse", "__delitem__", "__ior__", "__iadd__", "__imul__",
            "__isub__", "__itruediv__", "__iand__", "__ixor__", "__ipow__",
            "difference_update", "intersection_update", "appendleft",
            "symmetric_difference_update", "fill", "resize", "itemset", "put",
            "partition", "setfield", "setflags", "byteswap", "popleft",
            "rotate", "move_to_end", "ito", "ito_base_units",
            "ito_reduced_units"}
NP_MUTATORS = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask",
               "numpy.fill_diagonal", "numpy.put_along_axis",
               "numpy.random.shuffle", "random.shuffle", "heapq.heapify",
               "heapq.heappush", "heapq.heappop", "bisect.insort",
               "operator.iadd", "operator.imul", "operator.isub",
               "operator.itruediv", "operator.ipow", "operator.ior",
               "operator.iand", "operator.ixor", "operator.setitem",
               "operator.delitem"}
VIEWS = {"view", "reshape", "ravel", "transpose", "squeeze", "swapaxes",
         "items", "keys", "values", "diagonal"}
NP_VIEWS = {"numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d",
            "numpy.atleast_2d", "numpy.ravel", "numpy.reshape",
            "numpy.transpose", "numpy.squeeze", "numpy.moveaxis",
            "numpy.swapaxes", "numpy.broadcast_to", "numpy.nditer",
            "numpy.ma.asarray", "numpy.ascontiguousarray"}
STEPS = {"get", "pop", "__getitem__", "setdefault", "popitem", "item"}
SHALLOW = {"copy", "flatten", "tolist", "astype", "union", "intersection",
           "difference"}
SHALLOW_FN = {"dict", "list", "set", "tuple", "sorted", "frozenset",
              "reversed", "enumerate", "zip", "iter", "filter", "copy.copy",
              "numpy.array", "collections.OrderedDict", "numpy.copy",
              "collections.deque", "itertools.chain", "collections.Counter",
              "collections.defaultdict", "object"}
SCALAR_FN = {"len", "str", "repr", "float", "int", "bool", "hash", "id",
             "isinstance", "hasattr", "type", "callable", "abs", "round",
             "format", "print", "chr", "ord", "range", "any", "all"}
IMMUTABLE = ("str", "int", "float", "bool", "NoneType", "tuple", "bytes",
             "complex", "frozenset")
VIEW_ATTRS = {"T", "flat", "real", "imag"}
DUNDERS = {"+": ("__add__", "__radd__"), "-": ("__sub__", "__rsub__"),
           "*": ("__mul__", "__rmul__"), "/": ("__truediv__", "__rtruediv__"),
           "**": ("__pow__", "__rpow__")}
INPLACE = {"+": "__iadd__", "-": "__isub__", "*": "__imul__",
           "/": "__itruediv__", "**": "__ipow__", "|": "__ior__",
           "&": "__iand__", "^": "__ixor__"}


def deeper(level):
    return 1 if level in ("a", "i") else min(level + 1, TOP)


def below(level):
    "The level of an item, for a level inside its holder."
    return ("a", "i") if level == 1 else (level - 1,) if level < TOP \
        else (TOP - 1, TOP)


NOTHING = frozenset()
CLS = ("b", "cls")


class Write:
    "Something a function does to an object that existed before its call."

    def __init__(self, root, level, field, line, how, via=(), guard=None,
                 here=True):
        self.root, self.level, self.field = root, level, field
        self.here = here        # the field is named in this function
        self.line, self.how, self.via, self.guard = line, how, via, guard

    @property
    def key(self):
        return self.root, self.level, self.field

    @property
    def how_key(self):
        "The key written, of an item written here."
        if self.via or self.guard is None:
            return None
        e = self.guard[0]
        if e.kind in ("setitem", "delitem", "setdefault"):
            return e.args[1]
        if e.kind == "call" and e.args[1]:
            return e.args[1][0]
        return None


class Summary:
    def __init__(self):
        self.ret = {k: frozenset() for k in LEVELS}
        self.mut = {}


class Effects:
    "Summaries of all functions of the package."

    def __init__(self, chk):
        self.prog = chk.prog
        self.runs = {r.func.qual: r for r in everything(chk)}
        self.by_name = {}
        self.globals = {}
        self.props = {}
        attrs_set = set()
        for r in self.runs.values():
            f = r.func
            if f.cls is not None:
                self.by_name.setdefault(f.name, []).append(f)
                if f.is_property:
                    self.props.setdefault(f.name, []).append(f)
            for e in r.events:
                if e.kind == "set":
                    attrs_set.add(e.args[1])
        self.props = {k: v for k, v in self.props.items()
                      if k not in attrs_set}
        self.sums = {q: Summary() for q in self.runs}
        self.owns = {q: Own(self, r) for q, r in self.runs.items()}
        self.solve()

    def solve(self):
        self.rounds = 0
        todo = set(self.owns)
        while todo and self.rounds < 40:
            self.rounds += 1
            changed = set()
            again = set()
            for q in sorted(todo):
                own = self.owns[q]
                own.seen.clear()
                own.grew = False
                if own.summarise(self.sums[q]):
                    changed.add(q)
                if own.grew:
                    again.add(q)
            todo = again | {q for q, o in self.owns.items()
                            if o.deps & changed}

    def matters(self, field):
        "Fields that hold what users see; the others are memos and results."
        name = field[:-2] if field.endswith("[]") else field
        if field.endswith("[]") and name in MEMO_ARRAYS:
            return True
        return name not in MEMOS

    def of_classes(self, kinds, name):
        out = []
        for c in sorted(kinds):
            g = self.prog.find_method(c, name) if c in self.prog.classes \
                else None
            if g is not None and g not in out:
                out.append(g)
        return out

    def shared(self, q):
        "A module's own object: not a function, a class or a plain value."
        if q not in self.globals:
            mod, _, name = q.rpartition(".")
            m = self.prog.modules.get(mod)
            ok = False
            if m is not None:
                for s in m.tree.body:
                    if isinstance(s, ast.Assign) and any(
                            isinstance(x, ast.Name) and x.id == name
                            for x in s.targets):
                        ok = not isinstance(s.value, (
                            ast.Constant, ast.Tuple, ast.BinOp, ast.JoinedStr,
                            ast.Attribute, ast.Name))
            self.globals[q] = ok
        return self.globals[q]

    def methods(self, name):
        return self.by_name.get(name, ())


class Own:
    "Ownership of the values of one function."

    def __init__(self, effects, run):
        self.fx, self.run, self.f = effects, run, run.func
        self.prog = effects.prog
        self.memo = {}          # (id of a term, level) -> roots so far
        self.seen = set()       # computed in this round
        self.grew = False
        self.kept = {}          # terms made here, by structure
        self.alive = []
        self.infos = {}
        self.flows = run.eng.flows
        self.stored = {}
        self.objs = {}
        for st in run.states:
            for oid, ents in st.objs.items():
                self.objs.setdefault(oid, set()).update(ents)
        for e in run.events:
            if e.kind in ("set", "setitem", "setdefault", "append", "extend"):
                self.stored.setdefault(e.args[0], set()).add(
                    (e.args[-1], e.kind == "extend",
                     e.args[1] if e.kind == "set" else "[]"))
                if e.kind in ("setitem", "setdefault"):
                    self.stored[e.args[0]].add((e.args[1], False, "[]"))
            elif e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][2] in ("add", "update", "insert", "append",
                                     "extend") and e.args[1]:
                self.stored.setdefault(e.args[0][1], set()).add(
                    (e.args[1][-1], e.args[0][2] in ("update", "extend"),
                     "[]"))
        self.spread_up()
        self.params = set(self.f.all_params())
        a = self.f.node.args
        self.fresh = {x.arg for x in (a.vararg, a.kwarg) if x}
        self.deps = set()
        self.relevant = None

    def spread_up(self):
        "What goes into an item of a thing is held by the thing."
        for base in list(self.stored):
            top, held = base, self.stored[base]
            for _ in range(3):
                if top[0] == "sub":
                    up = top[1]
                elif top[0] == "call" and top[1][0] == "attr" and \
                        top[1][2] in ("setdefault", "get", "__getitem__"):
                    up = top[1][1]
                else:
                    break
                held = {(("holder", ("elem", v) if splat else v), False, "[]")
                        for v, splat, _ in held if isinstance(v, tuple)}
                self.stored.setdefault(up, set()).update(held)
                top = up

    # ------------------------------------------------------------ values ----
    def own(self, t, level, facts=None, field=None):
        if facts is not None:
            got = self.special(t, level, facts)
            if got is not None:
                return got
        key = (id(t), level, field)
        was = self.memo.get(key, NOTHING)
        if key in self.seen:
            return was
        self.seen.add(key)
        if id(t) not in self.infos:
            self.alive.append(t)
            self.infos[id(t)] = self.stored.get(t, ())
        out = was | self.compute(t, level, field)
        if len(out) > len(was):
            self.grew = True
            self.memo[key] = out
        return self.memo.get(key, NOTHING)

    def make(self, *t):
        "A term made here: the same object every time."
        key = tuple(id(x) if isinstance(x, tuple) else x for x in t)
        if key not in self.kept:
            self.kept[key] = t
            self.alive.append(t)
        return self.kept[key]

    def special(self, t, level, facts):
        "An indexed array is a view when it has a shape."
        if t[0] == "call" and t[1][0] in ("g", "attr") and \
                lastname(t[1]) == "__getitem__" and level == "a":
            for x, v in facts.items():
                if v and x[0] in ("getattr", "attr") and x[1] == t and \
                        x[2] in ("shape", K("shape")):
                    return frozenset()
                if not v and x[0] == "not" and x[1][0] == "getattr" and \
                        x[1][1] == t:
                    return frozenset()
        return None

    def union(self, ts, level, field=None):
        out = set()
        for t in ts:
            if isinstance(t, tuple) and t:
                out |= self.own(t, level, field=field)
        return out

    def inside(self, ts, level):
        "What is at a level of something that holds ts."
        out = set()
        if level in LEVELS[2:]:
            for b in below(level):
                out |= self.union(ts, b)
        return out

    def compute(self, t, level, field):
        k = t[0]
        out = set()
        if scalar(t):
            return out
        if level != "a" and level != "i":
            for v, splat, where in self.infos[id(t)]:
                if not isinstance(v, tuple) or v == t or \
                        field not in (None, where):
                    continue
                out |= self.own(v, level) if splat else \
                    self.inside([v], level)
        if k == "p":
            if t[1] in self.fresh:      # *args and **kwargs are made anew
                if level not in ("a", "i"):
                    out.add((t, level))
                return out
            out.add((t, level))
            return out
        if k in ("attr", "sub", "elem", "val", "only", "key", "getattr",
                 "rest"):
            if k in ("attr", "getattr"):
                name = t[2] if isinstance(t[2], str) else None
                ps = self.fx.props.get(name)
                if ps:
                    for g in ps:
                        out |= self.through(g, {g.params()[0]: [t[1]]}, level)
                    return out
                if name in VIEW_ATTRS and level == "a":
                    return out
            if k == "sub":
                parts = self.part(t)
                if parts is not None:
                    return out | self.union(parts, level)
            base = t[1]
            while base[0] == "call" and base[1][0] == "attr" and \
                    base[1][2] in ("items", "values", "keys"):
                base = base[1][1]
                if k == "sub" or t[1] is not base:
                    pass
            if k == "sub" and base[0] == "elem" and pairs(base[1]):
                return self.own(base, level)
            if k == "elem" and pairs(t[1]):
                base = t[1][1][1]
            return out | self.own(
                base, deeper(level),
                field=(name or None) if k in ("attr", "getattr") else "[]")
        if k in ("g", "b"):
            if k == "g" and self.fx.shared(t[1]):
                out.add((t, level))
            return out
        if k == "new":
            return out | self.made(t, t[1], t[2], t[3], level)
        if k == "obj":
            for e in self.objs.get(t[2], ()):
                out |= self.entry(e, level)
            return out
        if k in ("tuple", "holder"):
            return out | self.inside(t[1] if k == "tuple" else t[1:], level)
        if k == "phi":
            return out | self.union(t[1], level, field)
        if k == "loopout":
            return out | self.union([t[4]] + list(t[5]), level, field)
        if k in ("loopvar", "loopheap"):
            out |= self.union(self.flows.get(t, ()), level, field)
            if k == "loopheap" and isinstance(t[1], tuple) and t[1] and \
                    isinstance(t[1][0], tuple):
                out |= self.own(t[1][0], deeper(level))
            return out
        if k == "default":
            return out | self.union([x for x in t[1:] if isinstance(x, tuple)
                                     ], level)
        if k == "bin":
            return out | self.operator(t, level)
        if k == "neg":
            for g in self.fx.methods("__neg__"):
                out |= self.through(g, {g.params()[0]: [t[1]]}, level)
            return out
        if k == "call":
            return out | self.called(t[1], t[2], t[3], level)
        if k in ("starred", "*", "**", "entered"):
            return out | self.own(t[1], level)
        if k in ("cond", "ifexp"):
            return out | self.union(t[2:], level)
        if k == "super":
            return out | self.own(t[1], level)
        if k == "old":
            return out | self.union([x for x in t[1:] if isinstance(x, tuple)],
                                    level)
        return out

    def part(self, t):
        "The one place of the tuples a container of our own holds, or None."
        base, n = t[1], t[2]
        if base[0] not in ("elem", "val") or not is_const(n) or \
                n[1] != "int":
            return None
        items = self.items_in(base[1])
        if items is None or not items or not all(
                x[0] == "tuple" and 0 <= n[2] < len(x[1]) for x in items):
            return None
        return [x[1][n[2]] for x in items]

    def items_in(self, t, depth=0):
        "What a container made here holds, or None when not known."
        if depth > 4:
            return None
        if t[0] == "obj" or t[0] == "call" and lastname(t[1]) in (
                "defaultdict", "set", "list", "dict", "deque") and all(
                    x[0] in ("b", "g") for x in t[2]) and not t[3]:
            out = []
            for v, splat, _ in self.stored.get(t, ()):
                if splat or not isinstance(v, tuple):
                    return None
                out.append(v)
            for e in self.objs.get(t[2], ()) if t[0] == "obj" else ():
                if e[0] == "splat":
                    return None
                out.append(e[-2])
            return out
        if t[0] in ("val", "sub", "elem"):
            items = self.items_in(t[1], depth + 1)
            if items is None:
                return None
            out = []
            for v in items:
                if v[0] == "holder":
                    out.extend(v[1:])
                    continue
                more = self.items_in(v, depth + 1)
                if more is None:
                    return None
                out.extend(more)
            return out
        return None

    def entry(self, e, level):
        if level in ("a", "i"):
            return set()
        if e[0] == "item":
            return self.inside([e[1]], level)
        if e[0] == "kv":
            return self.inside([e[1], e[2]], level)
        if e[0] == "splat":
            return self.own(e[1], level)
        return set()

    def operator(self, t, level):
        out = set()
        if t[1] in DUNDERS and len(t) >= 4:
            d, r = DUNDERS[t[1]]
            for name, a, b in ((d, t[2], t[3]), (r, t[3], t[2])):
                if is_const(a):
                    continue
                for g in self.operands(a, name):
                    ps = g.params()
                    if len(ps) >= 2:
                        out |= self.through(g, {ps[0]: [a], ps[1]: [b]}, level)
        if level not in ("a", "i"):
            if t[1] in ("+", "*", "|", "&", "-", "^"):   # lists, sets
                out |= self.union(t[2:4], level)
        return out

    def through(self, g, args, level):
        "What a function's summary says of its result."
        out = set()
        s = self.fx.sums.get(g.qual)
        if s is None:
            return out
        self.deps.add(g.qual)
        for root, lv in s.ret[level]:
            if root[0] != "p":
                out.add((root, lv))
                continue
            for a in args.get(root[1], ()):
                out |= self.own(a, lv)
        return out

    def made(self, t, cls, args, kwargs, level):
        "A new object of a class."
        out = set()
        new = None
        c = cls if isinstance(cls, str) else None
        if c in self.prog.classes:
            new = self.prog.find_method(c, "__new__")
        if new is not None and new.qual in self.fx.sums:
            return self.through(new, self.bind(new, None, args, kwargs, True),
                                level)
        if level in ("a", "i"):
            return out
        kws = [v for _, v in kwargs]
        if c in self.prog.classes and any(
                b.rpartition(".")[2] in ("dict", "list", "set", "tuple",
                                         "defaultdict")
                for q in self.prog.mro(c)
                for b in self.prog.external_bases(q)):
            out |= self.union(args, level)
        return out | self.inside(list(args) + kws, level)

    def bind(self, g, recv, args, kwargs, new=False):
        ps = g.params()
        out = {}
        pos = list(args)
        if recv is not None:
            pos = [recv] + pos
        elif new and ps:
            ps = ps[1:]
        va = g.node.args.vararg.arg if g.node.args.vararg else None
        kw = g.node.args.kwarg.arg if g.node.args.kwarg else None
        spread = False
        for i, a in enumerate(pos):
            if a[0] == "*":
                spread = True
                for p in ps[i:] + ([va] if va else []):
                    out.setdefault(p, []).append(
                        self.make("elem", a[1]) if p != va else a[1])
                continue
            if not spread and i < len(ps):
                out.setdefault(ps[i], []).append(a)
            elif va:
                out.setdefault(va, []).append(self.make("holder", a))
        names = set(g.params()) | set(g.kwonly())
        for k, v in kwargs:
            if k in names:
                out.setdefault(k, []).append(v)
            elif kw:
                out.setdefault(kw, []).append(self.make("holder", v))
        return out

    def targets(self, f, args, kwargs):
        "[(function, {param: [terms]})] that a call may run."
        if f[0] == "g":
            g = self.prog.functions.get(f[1])
            if g is not None:
                if g.is_classmethod:
                    return [(g, self.bind(g, CLS, args, kwargs))]
                return [(g, self.bind(g, None, args, kwargs))]
            return []
        if f[0] == "attr":
            out = []
            if f[1][0] == "g" and f[1][1] in self.prog.classes:
                g = self.prog.find_method(f[1][1], f[2])
                if g is not None:
                    if g.is_classmethod:
                        return [(g, self.bind(g, f[1], args, kwargs))]
                    return [(g, self.bind(g, None, args, kwargs))]
            if f[1][0] in ("b", "g") and f[1][1] in (
                    "dict", "list", "set", "object"):
                return []
            recv = f[1]
            found = self.fx.methods(f[2])
            if recv[0] == "super":
                found, recv = self.above(f[2]), recv[1]
            else:
                kinds = self.types(recv)
                if kinds is not None:
                    found = self.fx.of_classes(kinds, f[2])
            for g in found:
                out.append((g, self.bind(g, None if g.is_static else recv,
                                         args, kwargs)))
            return out
        if f[0] == "closure":
            g = self.prog.functions.get(f[1]) if isinstance(f[1], str) \
                else None
            if g is not None:
                return [(g, self.bind(g, None, args, kwargs))]
        return []

    def types(self, t, depth=0):
        "The classes a value can have, or None."
        prog = self.prog
        if t == ("p", "self") and self.f.cls is not None and \
                self.f.params()[:1] == ["self"]:
            own = self.f.cls.qual
            return {own} | {getattr(c, "qual", c)
                            for c in prog.subclasses(own)}
        if t[0] == "new" and t[1] in prog.classes:
            return {t[1]} | {c for c, of in DYNAMIC if of == t[1]}
        if t[0] in ("attr", "getattr") and t[2] in ATTR_CLASSES:
            return {ATTR_CLASSES[t[2]]}
        if scalar(t) or t[0] in ("tuple", "obj"):
            return set()
        if depth > 5:
            return None
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
                "copy", "view", "reshape"):
            return self.types(t[1][1], depth + 1)
        if t[0] == "bin" and t[1] in DUNDERS:
            for x in t[2:4]:
                got = self.types(x, depth + 1)
                if got and got <= HASHVECTORS:
                    return got
            return None
        if t[0] in ("elem", "key"):
            got = self.types(t[1], depth + 1)
            if got == {"gpkit.nomials.map.NomialMap"}:
                return {"gpkit.small_classes.HashVector"}
            if got == {"gpkit.small_classes.HashVector"}:
                return {"gpkit.varkey.VarKey"}
            return None
        more = None
        if t[0] == "phi":
            more = t[1]
        elif t[0] == "loopout":
            more = (t[4],) + tuple(t[5])
        elif t[0] in ("loopvar", "loopheap"):
            more = self.flows.get(t, ())
        if more:
            out = set()
            for x in more:
                if not isinstance(x, tuple) or x == t:
                    continue
                got = self.types(x, depth + 1)
                if got is None:
                    return None
                out |= got
            return out
        return None

    def operands(self, t, name):
        kinds = self.types(t)
        return self.fx.methods(name) if kinds is None \
            else self.fx.of_classes(kinds, name)

    def above(self, name):
        "What super() may find: methods after this class in any order."
        out = []
        if self.f.cls is None:
            return self.fx.methods(name)
        own = self.f.cls.qual
        for c in [own] + [getattr(c, "qual", c)
                          for c in self.prog.subclasses(own)]:
            g = self.prog.find_method(c, name, after=own)
            if g is not None and g not in out:
                out.append(g)
        return out

    def called(self, f, args, kwargs, level):
        out = set()
        for g, b in self.targets(f, args, kwargs):
            out |= self.through(g, b, level)
        if f[0] == "g" and f[1] in self.prog.functions:
            return out
        name = lastname(f)
        deep = level not in ("a", "i")
        if f[0] == "attr" and f[1][0] not in ("b",):
            recv = f[1] if f[1][0] != "super" else f[1][1]
            if f[1][0] == "g" and f[1][1] in ("numpy.ndarray", "dict"):
                recv, args = (args[0] if args else recv), args[1:]
            if name in VIEWS:
                return out | (self.own(f[1], level) if level != "a"
                              else set())
            if name in STEPS:
                alts = [a for a in args[1:]] if name in (
                    "get", "pop", "setdefault") else []
                return out | self.own(recv, deeper(level)) | \
                    self.union(alts, level)
            if name in SHALLOW and deep:
                return out | self.own(recv, level)
            if deep and not self.fx.methods(name):
                return out | self.own(recv, level)
            return out
        q = f[1] if f[0] in ("g", "b") else None
        if f[0] == "attr" and f[1][0] == "b":
            q = "%s.%s" % (f[1][1], f[2])
        if q in ("getattr",) and args:
            if len(args) > 1 and is_const(args[1]):
                return out | self.own(self.make("attr", args[0], args[1][2]), level) | \
                    self.union(args[2:], level)
            return out | self.own(args[0], deeper(level)) | \
                self.union(args[2:], level)
        if q in SCALAR_FN or q is None and f[0] != "closure":
            return out
        if q in ("next",):
            return out | self.union(args, deeper(level))
        if q in ("max", "min", "sum") and args:
            return out | self.own(args[0], deeper(level)) | \
                self.union(args[1:], level)
        if q in ("map", "functools.reduce", "functools.partial"):
            return out | (self.union(args[1:], level) if deep else set())
        if q in NP_VIEWS:
            return out | (self.own(args[0], level)
                          if args and level != "a" else set())
        if q and q.rpartition(".")[2] == "__getitem__" and args:
            return out | self.own(args[0], level if level != "a"
                                  else deeper(level)) | \
                self.own(args[0], deeper(level))
        if q in SHALLOW_FN or q and (
                q.startswith("numpy.") or q.startswith("itertools.")):
            return out | (self.union(args, level) if deep else set())
        if q and q in self.prog.classes:
            return out | self.made(None, q, args, kwargs, level)
        if deep and q and q != "copy.deepcopy":
            out |= self.inside(args, level)
        return out

    # ------------------------------------------------------------ writes ----
    def immutable(self, t, facts):
        if is_const(t) or t[0] in ("tuple", "fmt", "cmp", "is", "in", "not"):
            return True
        for x, v in facts.items():
            if v and x[0] == "isinstance" and x[1] == t and \
                    all(n.rpartition(".")[2] in NUMBERS
                        for n in names_of(x[2])):
                return True
        if t[0] == "call" and t[1][0] == "b" and t[1][1] in SCALAR_FN:
            return True
        return False

    def writes(self, e, facts):
        "Writes made by one event: (base, level, field, how)."
        if e.kind in ("set", "delattr"):
            yield e.args[0], "a", e.args[1], e
        elif e.kind in ("setitem", "delitem", "setdefault", "append",
                        "extend"):
            yield e.args[0], "i", items_of(e.args[0]), e
        elif e.kind == "aug":
            old, op = e.args[0], e.args[1]
            if self.in_place(old, op, facts):
                yield old, "i", items_of(old), e
        elif e.kind == "call":
            f, args, kwargs = e.args[:3]
            name = lastname(f)
            for k, v in kwargs:
                if k == "out" and f[0] in ("g", "attr"):
                    yield v, "i", items_of(v), e
            if f[0] == "attr" and f[1][0] not in ("b", "g") and \
                    name in MUTATORS:
                base = f[1][1] if f[1][0] == "super" else f[1]
                yield base, "i", items_of(base), e
            elif f[0] in ("g", "b") and f[1] not in self.prog.functions \
                    and args and ("." in f[1] and name in MUTATORS or
                                  f[1] in NP_MUTATORS):
                yield args[0], "i", items_of(args[0]), e
            elif f[0] == "attr" and f[1][0] in ("b", "g") and args and \
                    name in MUTATORS and f[1][1] in (
                        "dict", "list", "set", "numpy.ndarray"):
                yield args[0], "i", items_of(args[0]), e
            elif f[0] == "attr" and f[1][0] == "g" and name in MUTATORS and \
                    f[1][1] not in self.prog.classes:
                yield f[1], "i", items_of(f[1]), e
            elif f in (("b", "setattr"), ("b", "delattr"),
                       ("attr", ("b", "object"), "__setattr__")) and \
                    len(args) > 1:
                yield args[0], "a", args[1][2] if is_const(args[1]) \
                    else "?", e

    def in_place(self, old, op, facts):
        "Whether an augmented assignment may change the object it starts from."
        if self.immutable(old, facts):
            return False
        kinds = self.kinds(old, facts)
        name = INPLACE.get(op)
        for c in kinds:
            if c in ("ndarray", "list", "set", "dict"):
                if c == "ndarray" or c == "list" and op in "+*" or \
                        c == "set" and op in "|&-^" or \
                        c == "dict" and op == "|":
                    return True
            elif c in self.prog.classes and name and \
                    self.prog.find_method(c, name):
                return True
        if not kinds and self.fx.methods(name):
            return True
        return False

    def kinds(self, t, facts, depth=0):
        "Classes a value is known to belong to."
        out = set()
        prog = self.prog

        def of_class(c):
            out.add(c)
            for q in prog.mro(c):
                for b in prog.external_bases(q):
                    n = b.rpartition(".")[2]
                    if n in ("ndarray", "list", "set", "dict", "defaultdict"):
                        out.add("dict" if n == "defaultdict" else n)
        if t == ("p", "self") and self.f.cls is not None:
            of_class(self.f.cls.qual)
            for c in prog.subclasses(self.f.cls.qual):
                of_class(getattr(c, "qual", c))
        for x, v in facts.items():
            if v and x[0] == "isinstance" and x[1] == t:
                for n in names_of(x[2]):
                    if n in prog.classes:
                        of_class(n)
                    elif n.rpartition(".")[2] in ("ndarray", "list", "set",
                                                  "dict"):
                        out.add(n.rpartition(".")[2])
            elif v and x[0] in ("attr", "hasattr", "getattr") and \
                    x[1] == t and x[2] in ("shape", K("shape")):
                out.add("ndarray")
        if t[0] == "new" and t[1] in prog.classes:
            of_class(t[1])
        if t[0] == "obj":
            out.add({"listcomp": "list", "dictcomp": "dict",
                     "setcomp": "set"}.get(t[1], t[1]))
        if t[0] in ("attr", "getattr") and t[2] in ATTR_KINDS:
            out.add(ATTR_KINDS[t[2]])
        if t[0] == "call" and t[1][0] == "g" and t[1][1].startswith("numpy."):
            out.add("ndarray")
        if t[0] == "call" and t[1][0] in ("b", "g") and t[1][1] in (
                "list", "dict", "set"):
            out.add(t[1][1])
        if depth < 4:
            more = ()
            if t[0] == "phi":
                more = t[1]
            elif t[0] == "loopout":
                more = (t[4],) + tuple(t[5])
            elif t[0] in ("loopvar", "loopheap"):
                more = self.flows.get(t, ())
            elif t[0] == "call" and t[1][0] == "attr" and \
                    t[1][2] in ("copy", "view", "reshape"):
                more = (t[1][1],)
            for x in more:
                if isinstance(x, tuple) and x:
                    out |= self.kinds(x, facts, depth + 1)
        return out

    def acting(self):
        "(event, facts that matter) for the events that may change something."
        if self.relevant is None:
            found = {}
            for st in self.run.states:
                for e, facts in paths_of(st):
                    if e.kind not in ACTING:
                        continue
                    if e.kind == "call" and e.args[0][0] in ("g", "b") and \
                            e.args[0][1] in SCALAR_FN:
                        continue
                    kept = frozenset((x, v) for x, v in facts.items()
                                     if matters(x))
                    found.setdefault(id(e), (e, set()))[1].add(kept)
            uniq = {}
            for e, fs in found.values():
                uniq.setdefault(e, set()).update(fs)
            self.relevant = [(e, [dict(f) for f in fs])
                             for e, fs in uniq.items()]
        for e, fs in self.relevant:
            for facts in fs:
                yield e, facts

    def effects(self):
        "Every Write of the function, its calls' included."
        for e, facts in self.acting():
            for base, level, field, ev in self.writes(e, facts):
                if not self.fx.matters(field) or self.immutable(base, facts):
                    continue
                for root, lv in self.own(base, level, facts):
                    yield Write(root, lv, field, ev.line,
                                "%s of %s" % (ev.kind, field),
                                guard=(ev, facts))
            if e.kind == "call":
                yield from self.call_effects(e.args[0], e.args[1],
                                             e.args[2], e, facts)
            elif e.kind == "new" and e.args[0][1] in self.prog.classes:
                t = e.args[0]
                g = self.prog.find_method(t[1], "__init__")
                if g is not None:
                    yield from self.of(g, self.bind(
                        g, None, t[2], t[3], True), e, facts)
            elif e.kind == "bin" and e.args[0][0] != "bin":
                for g in self.fx.methods("__neg__"):
                    if isinstance(e.args[0][1], tuple):
                        yield from self.of(g, {g.params()[0]:
                                               [e.args[0][1]]}, e, facts)
            elif e.kind in ("bin", "aug"):
                op, a, b = e.args[0][1:4] \
                    if e.kind == "bin" else \
                    (e.args[1], e.args[0], e.args[2])
                if op in DUNDERS:
                    d, r = DUNDERS[op]
                    for name, x, y in ((d, a, b), (r, b, a)):
                        if self.immutable(x, facts):
                            continue
                        for g in self.operands(x, name):
                            ps = g.params()
                            if len(ps) > 1:
                                yield from self.of(
                                    g, {ps[0]: [x], ps[1]: [y]}, e, facts)

    def call_effects(self, f, args, kwargs, e, facts):
        for g, b in self.targets(f, args, kwargs):
            if f[0] == "attr" and g.name in MUTATORS and f[1][0] != "g":
                continue            # counted as a write of the receiver
            yield from self.of(g, b, e, facts)

    def of(self, g, b, e, facts):
        s = self.fx.sums.get(g.qual)
        if s is None:
            return
        self.deps.add(g.qual)
        for w in list(s.mut.values()):
            if w.root[0] != "p":
                continue
            for a in b.get(w.root[1], ()):
                if self.immutable(a, facts):
                    continue
                for root, lv in self.own(a, w.level, facts):
                    field = w.field
                    if field == "[]" and w.level == "i":
                        field = items_of(a)
                        if not self.fx.matters(field):
                            continue
                    yield Write(root, lv, field, e.line, w.how,
                                ((g.qual, w.line),) + w.via[:6],
                                here=field != w.field)

    def summarise(self, s):
        "Recomputes a summary; whether it grew."
        grown = False
        eng = self.run
        for st, v in returns(eng):
            facts = dict(st.facts)
            for level in LEVELS:
                if self.immutable(v, facts):
                    continue
                got = self.own(v, level)
                if level == "a":
                    sp = self.special(v, level, facts)
                    got = got if sp is None else sp
                keep = frozenset((r, l) for r, l in got
                                 if r[0] != "p" or r[1] in self.params)
                keep = frozenset((r, l) for r, l in keep
                                 if not self.immutable(r, facts))
                if not keep <= s.ret[level]:
                    s.ret[level] |= keep
                    grown = True
        for w in self.effects():
            if w.key not in s.mut:
                s.mut[w.key] = w
                grown = True
        return grown


MEMO_ARRAYS = ("_cs", "_exps", "_exp", "_c")
MEMOS = {"_cs", "_exps", "_c", "_exp", "_varlocs", "_varkeys", "_hashvalue",
         "expmap", "csmap", "pmap", "const_mmap", "const_coeff", "v_ss",
         "_las", "cached_strs", "_name_collision_varkeys", "parent",
         "from_meq", "generated_by", "_unmapped_keys", "keymap", "owned",
         "_mons", "_negysig", "_coeffsigs", "_sigvars", "relax_sensitivity",
         "tightvalues", "rel_diff", "gradients", "program", "solution",
         "monomial_cache", "division_cache", "multiplication_cache",
         "initialized"}
HASHVECTORS = {"gpkit.small_classes.HashVector", "gpkit.nomials.map.NomialMap"}
ATTR_CLASSES = {"hmap": "gpkit.nomials.map.NomialMap", "descr": "dict",
                "veckey": "gpkit.varkey.VarKey", "units": "Quantity",
                "keymap": "dict", "substitutions": "gpkit.keydict.KeyDict",
                "expmap": "dict", "csmap": "gpkit.nomials.map.NomialMap",
                "name": "str", "lineage": "tuple", "idx": "tuple",
                "shape": "tuple", "unitrepr": "str"}
DYNAMIC = [("gpkit.nomials.math.Monomial", "gpkit.nomials.math.Signomial"),
           ("gpkit.nomials.math.Posynomial", "gpkit.nomials.math.Signomial")]
ACTING = ("set", "delattr", "setitem", "delitem", "setdefault", "append",
          "extend", "aug", "call", "new", "bin")
NUMBERS = {"Numbers", "int", "float", "number", "Quantity", "str", "Strings",
           "bool", "complex", "tuple"}
ATTR_KINDS = {"cs": "ndarray", "_cs": "ndarray", "flat": "ndarray",
              "T": "ndarray"}


def scalar(t):
    "A number, a text or another value that cannot be changed."
    if is_const(t) or t[0] in ("cmp", "is", "in", "not", "isinstance",
                               "hasattr", "fmt", "idx"):
        return True
    if t[0] == "bin":
        return t[1] == "%" and (is_const(t[2]) or scalar(t[2])) or \
            t[1] in "+*" and any(text(x) for x in t[2:4]) or \
            scalar(t[2]) and scalar(t[3])
    if t[0] == "attr" and t[2] in ("magnitude", "m"):   # of a conversion
        return t[1][0] == "call" and t[1][1][0] == "attr" and \
            t[1][1][2] == "to"
    if t[0] == "call":
        return t[1][0] == "b" and t[1][1] in SCALAR_FN or \
            t[1][0] == "attr" and t[1][2] in (
                "join", "format", "strip", "rstrip", "lower", "upper",
                "replace", "startswith", "endswith", "index", "count",
                "ljust", "rjust")
    return False


def text(t):
    return is_const(t) and isinstance(t[2], str) or t[0] == "fmt" or \
        t[0] == "call" and t[1] in (("b", "str"), ("b", "repr")) or \
        t[0] == "bin" and scalar(t) and (t[1] == "%" or
                                         any(text(x) for x in t[2:4]))


def matters(x):
    if x[0] == "not":
        x = x[1]
    if x[0] == "isinstance":
        return True
    if x[0] in ("attr", "getattr"):
        return x[2] in ("shape", K("shape"))
    return x[0] == "is" and x[1][0] == "attr" and x[1][2] == "hashvalue"


def names_of(t):
    if isinstance(t, str):
        return [t]
    if t[0] in ("g", "b"):
        return [t[1]]
    if t[0] == "tuple":
        return [n for x in t[1] for n in names_of(x)]
    if t[0] == "bin":
        return names_of(t[2]) + names_of(t[3])
    return ["?"]


def lastname(f):
    if f[0] == "attr":
        return f[2]
    if f[0] in ("g", "b"):
        return f[1].rpartition(".")[2]
    return ""


def pairs(t):
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
        "items", "values", "keys") and not t[2]


def items_of(base):
    "The field whose items a write changes: the nearest attribute."
    t = base
    while True:
        if t[0] in ("attr", "getattr"):
            return "%s[]" % t[2]
        if t[0] in ("sub", "elem", "val", "only", "key"):
            t = t[1]
        elif t[0] == "call" and t[1][0] == "attr" and \
                t[1][2] in STEPS | VIEWS:
            t = t[1][1]
        elif t[0] == "loopheap" and isinstance(t[1], tuple) and \
                isinstance(t[1][0], tuple):
            if isinstance(t[1][1], str):
                return "%s[]" % t[1][1][1:]
            t = t[1][0]
        else:
            return "[]"


def paths_of(st):
    "(event, facts) along a state's events, loops opened."
    def walk(events, facts):
        for e in events:
            if e.kind == "loop":
                for p in e.args[2]:
                    fd = dict(facts)
                    fd.update(dict(p[2]))
                    yield from walk(p[1], fd)
            else:
                yield e, facts
    yield from walk(st.events, dict(st.facts))


def returns(run):
    return run.ret


CACHE = {}


def effects(chk):
    if id(chk.prog) not in CACHE:
        CACHE.clear()
        CACHE[id(chk.prog)] = Effects(chk)
    return CACHE[id(chk.prog)]
