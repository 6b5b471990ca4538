"""Engine V: path-partitioned value-flow / typestate analysis over Python ASTs.

A function is interpreted abstractly on its syntax tree.  Values are symbolic
*terms* (nested tuples), control-flow joins keep states apart by the branch
facts that separate them (trace partitioning, merged again as soon as the
abstract stores agree), loops are run either to a bounded fixpoint on the
abstract state ("unroll") or once for a generic iteration ("summary"), and
project helpers are inlined, so that a property is judged on what a function
does and not on how its text is laid out.  No solver is involved: a branch is
pruned only when a recorded fact or constant decides it.
"""
import ast
import itertools

from .model import AnalysisBroken, Func, walk_shallow

ABSENT = ("absent",)
ANY = "ANY"


def K(v):
    return ("const", type(v).__name__, v)


NONE, TRUE, FALSE = K(None), K(True), K(False)


def is_const(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "const"


def is_tag(t):
    "A constant, or an attribute of an outside module (an enumeration)."
    return is_const(t) or t[0] == "g" and t[1].count(".") > 1


def subterms(t):
    "All sub-terms of a term, itself included."
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def strip(t):
    "Removes identity tags so that terms can be compared structurally."
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "elem" and len(t) == 3:
        return ("elem", strip(t[1]))
    if t and t[0] == "new" and len(t) == 5:
        return ("new", t[1], strip(t[2]), strip(t[3]))
    if t and t[0] in ("key", "val", "idx") and len(t) == 3:
        return (t[0], strip(t[1]))
    return tuple(strip(x) for x in t)


class Event:
    __slots__ = ("kind", "args", "line", "fn", "facts", "_key")

    def __init__(self, kind, args, line, fn, facts=None):
        self.kind, self.args, self.line, self.fn = kind, args, line, fn
        self.facts = facts
        self._key = (kind, args, line, facts)

    def __hash__(self):
        return hash(self._key)

    def __eq__(self, other):
        return self._key == other._key

    def __repr__(self):
        return "<%s %s @%s:%s>" % (self.kind, show(self.args), self.fn, self.line)


def show(t, depth=0):
    "A readable rendering of a term."
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    if depth > 8:
        return "..."
    d = depth + 1
    h = t[0]
    if h == "const" and len(t) == 3:
        return repr(t[2])
    if h == "p":
        return t[1]
    if h in ("g", "b"):
        return t[1].rpartition(".")[2] if h == "g" else t[1]
    if h == "attr":
        return "%s.%s" % (show(t[1], d), t[2])
    if h == "sub":
        return "%s[%s]" % (show(t[1], d), show(t[2], d))
    if h == "call":
        return "%s(%s)" % (show(t[1], d), ", ".join(
            [show(a, d) for a in t[2]] + ["%s=%s" % (k, show(v, d)) for k, v in t[3]]))
    if h == "new":
        return "%s(%s)" % (t[1].rpartition(".")[2], ", ".join(
            [show(a, d) for a in t[2]] + ["%s=%s" % (k, show(v, d)) for k, v in t[3]]))
    if h == "bin":
        return "(%s %s %s)" % (show(t[2], d), t[1], show(t[3], d))
    if h == "cmp":
        return "(%s %s %s)" % (show(t[2], d), t[1], show(t[3], d))
    if h == "not":
        return "not %s" % show(t[1], d)
    if h == "elem":
        return "each(%s)" % show(t[1], d)
    if h == "tuple":
        return "(%s)" % ", ".join(show(x, d) for x in t[1])
    if isinstance(h, str):
        return "%s<%s>" % (h, ", ".join(show(x, d) for x in t[1:]))
    return "(%s)" % ", ".join(show(x, d) for x in t)


class State:
    __slots__ = ("env", "heap", "facts", "events", "objs", "exc", "pend",
                 "loops")

    def __init__(self):
        self.env, self.heap, self.facts, self.objs = {}, {}, {}, {}
        self.events = ()
        self.exc = ()      # stack of exceptions being handled
        self.pend = None
        self.loops = ()    # enclosing summary loops (loopid, iterable)

    def copy(self):
        s = State()
        s.env, s.heap = dict(self.env), dict(self.heap)
        s.facts, s.objs = dict(self.facts), dict(self.objs)
        s.events, s.exc, s.pend = self.events, self.exc, self.pend
        s.loops = self.loops
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()),
                frozenset(self.objs.items()), self.events, self.exc, self.pend)


class Outs:
    "Outcomes of executing a block."
    __slots__ = ("next", "ret", "exc", "brk", "cont")

    def __init__(self):
        self.next, self.ret, self.exc, self.brk, self.cont = [], [], [], [], []


class Exc:
    "An exception in flight."
    __slots__ = ("cls", "term", "line", "fn", "origin", "cause")

    def __init__(self, cls, term, line, fn, origin="raise", cause=None):
        self.cls, self.term, self.line, self.fn = cls, term, line, fn
        self.origin = origin
        self.cause = cause      # the exception it records as its cause

    def _key(self):
        return (self.cls, self.term, self.line, self.origin, self.cause)

    def __hash__(self):
        return hash(self._key())

    def __eq__(self, other):
        return isinstance(other, Exc) and self._key() == other._key()

    def __repr__(self):
        return "Exc(%s@%s)" % (self.cls, self.line)


class Frame:
    ids = itertools.count()

    def __init__(self, func, parent=None, cls=None, depth=0, lexical=None):
        self.id = next(Frame.ids)
        self.func, self.parent, self.cls = func, parent, cls
        self.module = func.module
        self.depth = depth
        self.lexical = lexical     # enclosing Frame for closures
        self.raises = []
        self.handlers = ()         # handler type names of enclosing try blocks
        self.yield_cb = None
        self.locals = assigned_names(func.node) | set(func.all_params())
        self.globals_declared = set()
        self.consts = {}


_ASSIGNED = {}


def assigned_names(node):
    key = id(node)
    hit = _ASSIGNED.get(key)
    if hit is not None and hit[0] is node:
        return hit[1]
    out = set()
    glob = set()
    it = walk_shallow(node) if not isinstance(node, list) else \
        (n for st in node for n in itertools.chain([st], walk_shallow(st)))
    for n in it:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    out -= glob
    _ASSIGNED[key] = (node, out)
    return out


class Spec:
    "What a rule tells the engine.  Rules subclass this."
    loop_mode = "summary"
    max_states = 600
    budget = 15000         # states after which joins get coarser
    patience = None        # states after which the run is abandoned
    max_depth = 8
    max_term = 500
    snap = False           # store facts with events
    yield_raises = False    # what is done with a value yielded may raise
    implicit_raises = True  # operations inside try bodies may reach handlers
    unroll = 3
    watched = None         # (term): paths that differ in it are not joined
    opaque = ()            # qualified names never inlined
    inline_all = False
    inlined = ()           # qualified names of baseline functions to look into
    inlined_under = ()     # modules or classes whose functions are looked into

    def __init__(self, prog):
        self.prog = prog

    def relevant(self, ev):
        return True

    def inline(self, func, frame):
        "Whether to look inside a project function."
        if func.qual in self.opaque:
            return False
        if is_new(func) or self.inline_all:
            return True
        return func.qual in self.inlined or any(
            func.qual.startswith(m + ".") for m in self.inlined_under)

    def on_call(self, eng, st, frame, f, args, kwargs, node):
        return None

    def on_attr(self, eng, st, frame, base, attr):
        return None

    def on_sub(self, eng, st, frame, base, key):
        return None

    def may_raise(self, eng, st, frame, what, term):
        return ()

    def type_of(self, term, st):
        return None

    def truth(self, eng, st, term):
        return None

    def construct(self, eng, st, frame, qual, args, kwargs, node):
        "Whether to inline a constructor (returns bool)."
        init = self.prog.find_method(qual, "__init__")
        return init is not None and is_new(init)

    def after_write(self, eng, st, frame, base, loc):
        "May normalise st.heap (in place) after a write."

    def now(self, term):
        "Whether a condition must be decided when evaluated, not when tested."
        return False

    def on_write(self, eng, st, frame, base, key, value, node):
        "Called before a heap write or deletion; may return exception names."
        return ()


def is_new(func):
    "A function that the reference tree did not have: helpers of later edits."
    from .baseline import BASELINE_FUNCTIONS
    return func.qual not in BASELINE_FUNCTIONS


COMMON_PURE = {"len", "isinstance", "hasattr", "getattr", "bool", "float",
               "int", "str", "repr", "abs", "min", "max", "sum", "sorted",
               "list", "tuple", "set", "frozenset", "dict", "zip",
               "enumerate", "range", "reversed", "iter", "map", "filter",
               "any", "all", "type", "id", "hash", "round", "callable",
               "issubclass", "super", "print", "vars", "next"}
ELEMENTWISE = {"list", "tuple", "sorted", "reversed", "iter", "set",
               "frozenset"}


class Engine:
    def __init__(self, prog, spec):
        self.prog, self.spec = prog, spec
        self.uid = itertools.count(1)
        self.closures = {}
        self.big = {}
        self.stats = {"functions": set(), "paths": 0, "states": 0,
                      "coarsened": 0, "calls": 0}
        self.active = []
        self.flows = {}          # what loop variables and locations held

    # ------------------------------------------------------------ entry ---
    def run(self, func, self_cls=None, args=None, init=None, cls=None):
        """Analyses a function.  args: parameter name -> term overrides."""
        st = State()
        lexical = None
        outer, chain = func.parent, []
        while outer is not None:
            chain.append(outer)
            outer = outer.parent
        for outer in reversed(chain):   # free variables of a nested function
            lexical = Frame(outer, lexical=lexical)
            for name in lexical.locals:
                st.env[(lexical.id, name)] = ("free", name)
            for name in outer.all_params():
                st.env[(lexical.id, name)] = ("p", name)
            for name in outer.nested:
                q = "%s.<locals>.%s" % (outer.qual, name)
                if q in self.prog.functions:
                    self.closures[q] = (self.prog.functions[q], lexical)
                    st.env[(lexical.id, name)] = ("closure", q)
        frame = Frame(func, cls=cls or self_cls or (func.cls and func.cls.qual),
                      lexical=lexical)
        for name in func.all_params():
            st.env[(frame.id, name)] = ("p", name)
        for name, t in (args or {}).items():
            st.env[(frame.id, name)] = t
        if init:
            init(st, frame)
        self.entry_frame = frame
        outs = self.exec_function(func, frame, [st])
        return outs

    def exec_function(self, func, frame, states):
        self.stats["functions"].add(func.qual)
        self.active.append(func.qual)
        try:
            if isinstance(func.node, ast.Lambda):
                outs = Outs()
                for st in states:
                    for s, t in self.eval(func.node.body, st, frame):
                        outs.ret.append((s, t))
                outs.exc.extend(frame.raises)
                frame.raises = []
            else:
                outs = self.exec_block(func.node.body, states, frame)
                outs.exc.extend(frame.raises)
                frame.raises = []
                for st in outs.next:
                    outs.ret.append((st, NONE))
                outs.next = []
        finally:
            self.active.pop()
        outs.ret = self.merge_vals(outs.ret)
        outs.exc = self.merge_vals(outs.exc)
        return outs

    # ------------------------------------------------------------ merge ---
    def key(self, s):
        w = self.spec.watched
        if w is None:
            return s.key()
        return s.key(), frozenset((t, b) for t, b in s.facts.items() if w(t))

    def merge(self, states, frame=None):
        if len(states) < 2:
            return states
        table, order = {}, []
        for s in states:
            k = self.key(s)
            if k in table:
                o = table[k]
                if o.facts != s.facts:
                    n = o.copy()
                    n.facts = merge_facts(o.facts, s.facts)
                    table[k] = n
            else:
                table[k] = s
                order.append(k)
        states = [table[k] for k in order]
        self.stats["states"] += len(states)
        limit = self.spec.max_states
        if self.spec.patience and self.stats["states"] > self.spec.patience:
            raise AnalysisBroken("more than %i states" % self.spec.patience)
        if self.stats["states"] > self.spec.budget:
            limit = max(8, limit//40)
        if len(states) > limit:
            states = self.coarsen(states, limit)
        return states

    def merge_vals(self, pairs):
        if len(pairs) < 2:
            return pairs
        table, order = {}, []
        for s, v in pairs:
            k = (self.key(s), v)
            if k in table:
                o = table[k][0]
                if o.facts != s.facts:
                    n = o.copy()
                    n.facts = merge_facts(o.facts, s.facts)
                    table[k] = (n, v)
            else:
                table[k] = (s, v)
                order.append(k)
        return [table[k] for k in order]

    def coarsen(self, states, limit):
        "Joins states that agree on what happened (events) so far."
        self.stats["coarsened"] += 1
        out = self.group(states, lambda s: (
            s.events, frozenset(s.objs.items()), s.exc, s.pend,
            frozenset(s.heap.items())))
        if len(out) > limit:
            out = self.group(out, lambda s: (
                s.events, frozenset(s.objs.items()), s.exc, s.pend))
        if len(out) > limit:
            out = self.group(out, lambda s: (s.events, s.exc, s.pend))
        if len(out) > 6 * self.spec.max_states:
            raise AnalysisBroken("state space too large in %s" % self.active)
        return out

    def group(self, states, key):
        groups, order = {}, []
        for s in states:
            k = key(s)
            if k not in groups:
                order.append(k)
            groups.setdefault(k, []).append(s)
        out = []
        for k in order:
            g = groups[k]
            base = g[0].copy()
            for s in g[1:]:
                for name in list(base.env):
                    v, w = base.env[name], s.env.get(name)
                    if w is None:
                        del base.env[name]
                    elif v != w:
                        base.env[name] = join(v, w)
                for loc in set(base.heap) | set(s.heap):
                    v = base.heap.get(loc, ("old",))
                    w = s.heap.get(loc, ("old",))
                    if v != w:
                        base.heap[loc] = join(v, w)
                for oid, ents in s.objs.items():
                    mine = base.objs.get(oid, ())
                    base.objs[oid] = mine + tuple(
                        e for e in ents if e not in mine)
                base.facts = merge_facts(base.facts, s.facts)
            out.append(base)
        return out

    # ------------------------------------------------------- statements ---
    def exec_block(self, stmts, states, frame):
        outs = Outs()
        cur = states
        for st_ in stmts:
            if not cur:
                break
            o = self.exec_stmt_many(st_, cur, frame)
            outs.ret.extend(o.ret)
            outs.exc.extend(o.exc)
            outs.brk.extend(o.brk)
            outs.cont.extend(o.cont)
            cur = self.merge(o.next)
        outs.next = cur
        return outs

    def exec_stmt_many(self, node, states, frame):
        outs = Outs()
        for s in states:
            saved, frame.raises = frame.raises, []
            o = self.exec_stmt(node, s, frame)
            o.exc.extend(frame.raises)
            frame.raises = saved
            for name in Outs.__slots__:
                getattr(outs, name).extend(getattr(o, name))
        outs.exc = self.merge_vals(outs.exc)
        outs.ret = self.merge_vals(outs.ret)
        return outs

    def exec_stmt(self, node, st, frame):
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            raise AnalysisBroken("statement %s at %s:%s not modelled" % (
                type(node).__name__, frame.module.relpath, node.lineno))
        return m(node, st, frame)

    def s_Pass(self, node, st, frame):
        o = Outs()
        o.next = [st]
        return o

    s_Nonlocal = s_Pass

    def s_Global(self, node, st, frame):
        frame.globals_declared.update(node.names)
        return self.s_Pass(node, st, frame)

    def s_Import(self, node, st, frame):
        st = st.copy()
        for a in node.names:
            name = (a.asname or a.name).split(".")[0]
            full = a.name if a.asname else name
            st.env[(frame.id, name)] = ("g", self.prog.canonical(full))
        o = Outs()
        o.next = [st]
        return o

    def s_ImportFrom(self, node, st, frame):
        st = st.copy()
        for a in node.names:
            name = a.asname or a.name
            q = self.prog.resolve(frame.module, name)
            base = self.prog._abs_module(frame.module, node)
            full = base + "." + a.name
            if q is None or frame.module.names.get(name, (0, ""))[1] != full:
                q = self.prog.canonical(full)
            st.env[(frame.id, name)] = ("g", q)
        o = Outs()
        o.next = [st]
        return o

    def s_Expr(self, node, st, frame):
        o = Outs()
        if isinstance(node.value, ast.Constant):
            o.next = [st]
            return o
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(node.value, st, frame)
        o.next = [s for s, _ in self.eval(node.value, st, frame)]
        return o

    def do_yield(self, node, st, frame):
        "A yield statement: contributes to the generator's collection."
        o = Outs()
        vals = ([(st, NONE)] if node.value is None
                else self.eval(node.value, st, frame))
        for s, v in vals:
            if frame.yield_cb is not None:
                r = frame.yield_cb(s, v, node)
                for name in Outs.__slots__:
                    getattr(o, name).extend(getattr(r, name))
                continue
            s = s.copy()
            kind = "splat" if isinstance(node, ast.YieldFrom) else "item"
            gen = s.env.get((frame.id, "<gen>"))
            if gen is not None:
                s.objs[gen[2]] = s.objs[gen[2]] + ((kind, v, s.loops),)
            self.emit(s, frame, "yield" if kind == "item" else "yieldfrom",
                      (v,), node)
            if self.spec.yield_raises:
                o.exc.append((s, Exc("BASE", ("p", "<exc>"),
                                     getattr(node, "lineno", 0),
                                     frame.func.qual, "yield")))
            o.next.append(s)
        return o

    def s_Assign(self, node, st, frame):
        o = Outs()
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            r = self.do_yield(node.value, st, frame)
            for s in r.next:
                for t in node.targets:
                    s = self.assign1(t, ("yielded",), s, frame, node)
                o.next.append(s)
            o.exc.extend(r.exc)
            return o
        # parallel assignment of tuple literals keeps elements apart
        for s, v in self.eval(node.value, st, frame):
            ss = [s]
            for t in node.targets:
                ss = [s2 for s1 in ss for s2 in self.assign(t, v, s1, frame, node)]
            o.next.extend(ss)
        return o

    def s_AnnAssign(self, node, st, frame):
        o = Outs()
        if node.value is None:
            o.next = [st]
            return o
        for s, v in self.eval(node.value, st, frame):
            o.next.extend(self.assign(node.target, v, s, frame, node))
        return o

    def assign1(self, target, v, st, frame, node):
        r = self.assign(target, v, st, frame, node)
        return r[0] if r else st

    def assign(self, target, v, st, frame, node):
        "Returns states after binding target to v."
        if isinstance(target, ast.Name):
            st = st.copy()
            self.bind(target.id, v, st, frame)
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            parts = self.unpack(v, target.elts, st, frame)
            states = [st]
            for el, t in zip(target.elts, parts):
                if isinstance(el, ast.Starred):
                    el = el.value
                states = [s2 for s in states
                          for s2 in self.assign(el, t, s, frame, node)]
            return states
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, frame, node)
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.eval(target.value, st, frame):
                out.extend(self.set_attr(b, target.attr, v, s, frame, node))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.eval(target.value, st, frame):
                for s2, k in self.eval(target.slice, s, frame):
                    out.extend(self.set_item(b, k, v, s2, frame, node))
            return out
        raise AnalysisBroken("assignment target %s" % type(target).__name__)

    def set_attr(self, b, attr, v, st, frame, node):
        for name in self.spec.on_write(self, st, frame, b, "." + attr, v, node) or ():
            frame.raises.append((st, Exc(name, ("p", "<exc>"), node.lineno,
                                         frame.func.qual, "write")))
        st = st.copy()
        v = self.cap(v)
        loc = (b, "." + attr)
        st.heap[loc] = v
        self.kill(st, ("attr", b, attr))
        self.emit(st, frame, "set", (b, attr, v), node)
        self.spec.after_write(self, st, frame, b, "." + attr)
        return [st]

    def set_item(self, b, k, v, st, frame, node):
        for name in self.spec.on_write(self, st, frame, b, k, v, node) or ():
            frame.raises.append((st, Exc(name, ("p", "<exc>"), node.lineno,
                                         frame.func.qual, "write")))
        st = st.copy()
        for loc in [l for l in st.heap if l[0] == b and l[1] != ("k", k)
                    and isinstance(l[1], tuple)
                    and not (is_const(k) and is_const(l[1][1]))]:
            del st.heap[loc]  # may alias
        st.heap[(b, ("k", k))] = v
        self.kill(st, ("sub", b, k))
        st.facts[("in", k, b)] = True
        if b[0] == "obj" and b[2] in st.objs:
            st.objs[b[2]] = st.objs[b[2]] + (("kv", k, v, st.loops),)
        self.emit(st, frame, "setitem", (b, k, v), node)
        self.spec.after_write(self, st, frame, b, ("k", k))
        return [st]

    def kill(self, st, loc):
        "Forgets facts about an overwritten location."
        for f in list(st.facts):
            if contains(f, lambda x: x == loc):
                del st.facts[f]

    def cap(self, v):
        "Very large terms are replaced by an opaque name for them."
        n, stack = 0, [v]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                n += 1
                if n > self.spec.max_term:
                    if v not in self.big:
                        self.big[v] = ("big", len(self.big), v[0])
                    return self.big[v]
                stack.extend(x)
        return v

    def bind(self, name, v, st, frame):
        fr = frame
        v = self.cap(v)
        if name in frame.globals_declared:
            q = frame.module.name + "." + name
            st.heap[(("g", frame.module.name), "." + name)] = v
            self.emit(st, frame, "setglobal", (("g", q), v), None)
            return
        while fr is not None and name not in fr.locals and fr.lexical is not None:
            fr = fr.lexical
        st.env[(fr.id, name)] = v

    def unpack(self, v, elts, st, frame):
        n = len(elts)
        star = next((i for i, e in enumerate(elts)
                     if isinstance(e, ast.Starred)), None)
        if v[0] == "tuple" and (len(v[1]) == n or star is not None):
            items = list(v[1])
            if star is None:
                return items
            k = len(items) - (n - 1)
            return (items[:star] + [("tuple", tuple(items[star:star + k]))]
                    + items[star + k:])
        if v[0] == "obj" and v[2] in st.objs and star is None:
            ents = st.objs[v[2]]
            if len(ents) == n and all(e[0] == "item" and not e[2] for e in ents):
                return [e[1] for e in ents]
        if v[0] == "call" and v[1] == ("b", "map") and len(v[2]) == 2:
            inner = self.unpack(v[2][1], elts, st, frame)
            return [("call", v[2][0], (i,), ()) for i in inner]
        out = []
        for i in range(n):
            if i == star:
                out.append(("rest", v, i))
            elif n == 1:
                out.append(("only", v))
            else:
                out.append(self.index(v, K(i), st))
        return out

    def index(self, v, k, st):
        "Term of v[k] without looking at the heap."
        if v[0] == "tuple" and is_const(k) and k[1] == "int":
            if -len(v[1]) <= k[2] < len(v[1]):
                return v[1][k[2]]
        if v[0] == "obj" and is_const(k) and v[2] in st.objs:
            ents = st.objs[v[2]]
            if k[1] == "int" and all(e[0] == "item" and not e[2] for e in ents) \
                    and -len(ents) <= k[2] < len(ents):
                return ents[k[2]][1]
        if v[0] == "pair" and is_const(k) and k[2] in (0, 1):
            return v[1 + k[2]]
        if v[0] == "elem" and is_const(k) and k[2] in (0, 1):
            src = v[1]
            if src[0] == "call" and src[1][0] == "attr" and src[1][2] == "items":
                return (("key", "val")[k[2]], src[1][1], v[2])
        if k[0] in ("elem",):
            src = k[1]
            if src[0] == "call" and src[1] == ("b", "range") and len(src[2]) == 1:
                n = src[2][0]
                if n == ("call", ("b", "len"), (v,), ()):
                    return ("elem", v, k[2])
            if src == v or (src[0] == "call" and src[1] == ("attr", v, "keys")):
                return ("val", v, k[2])
        if k[0] == "idx" and k[1] == v:
            return ("elem", v, k[2])
        if k[0] == "key" and k[1] == v:
            return ("val", v, k[2])
        return ("sub", v, k)

    def s_AugAssign(self, node, st, frame):
        o = Outs()
        op = OPS[type(node.op)]
        load = ast.copy_location(_as_load(node.target), node.target)
        for s, old in self.eval(load, st, frame):
            for s2, v in self.eval(node.value, s, frame):
                if old[0] == "obj" and op in ("+", "|") and old[2] in s2.objs \
                        and isinstance(node.target, (ast.Name, ast.Attribute)):
                    s2 = s2.copy()
                    s2.objs[old[2]] = s2.objs[old[2]] + self.splat(v, s2)
                    self.emit(s2, frame, "extend", (old, v), node)
                    o.next.append(s2)
                    continue
                nv = self.binop(op, old, v)
                self.emit(s2, frame, "aug", (old, op, v), node)
                o.next.extend(self.assign(node.target, nv, s2, frame, node))
        return o

    def splat(self, v, st):
        "Entries contributed by extending a collection with v."
        if v[0] == "tuple":
            return tuple(("item", x, st.loops) for x in v[1])
        if v[0] == "obj" and v[2] in st.objs:
            mark = ((("feed", v), None),)    # where the entries come from
            return tuple(e[:-1] + (st.loops + e[-1] + mark,)
                         for e in st.objs[v[2]])
        return (("splat", v, st.loops),)

    def s_Return(self, node, st, frame):
        o = Outs()
        if node.value is None:
            o.ret = [(st, NONE)]
        else:
            o.ret = list(self.eval(node.value, st, frame))
        return o

    def s_Delete(self, node, st, frame):
        o = Outs()
        states = [st]
        for t in node.targets:
            states = [s2 for s in states for s2 in self.delete(t, s, frame, node)]
        o.next = states
        return o

    def delete(self, t, st, frame, node):
        if isinstance(t, ast.Name):
            st = st.copy()
            st.env.pop((frame.id, t.id), None)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            states = [st]
            for e in t.elts:
                states = [s2 for s in states for s2 in self.delete(e, s, frame, node)]
            return states
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.eval(t.value, st, frame):
                s = s.copy()
                s.heap[(b, "." + t.attr)] = ABSENT
                self.kill(s, ("attr", b, t.attr))
                self.emit(s, frame, "delattr", (b, t.attr), node)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.eval(t.value, st, frame):
                for s2, k in self.eval(t.slice, s, frame):
                    out.extend(self.del_item(b, k, s2, frame, node))
            return out
        raise AnalysisBroken("del target")

    def del_item(self, b, k, st, frame, node):
        for name in self.spec.on_write(self, st, frame, b, k, ABSENT, node) or ():
            frame.raises.append((st, Exc(name, ("p", "<exc>"), node.lineno,
                                         frame.func.qual, "delete")))
        s = st.copy()
        s.heap[(b, ("k", k))] = ABSENT
        self.kill(s, ("sub", b, k))
        s.facts[("in", k, b)] = False
        self.emit(s, frame, "delitem", (b, k), node)
        self.spec.after_write(self, s, frame, b, ("k", k))
        return [s]

    def s_Assert(self, node, st, frame):
        o = Outs()
        t, f = self.cond(node.test, st, frame)
        o.next = t
        for s in f:
            o.exc.append((s, Exc("AssertionError", ("b", "AssertionError"),
                                 node.lineno, frame.func.qual)))
        return o

    def s_If(self, node, st, frame):
        o = Outs()
        t, f = self.cond(node.test, st, frame)
        for branch, states in ((node.body, t), (node.orelse, f)):
            if not states:
                continue
            if branch:
                r = self.exec_block(branch, self.merge(states), frame)
                for name in Outs.__slots__:
                    getattr(o, name).extend(getattr(r, name))
            else:
                o.next.extend(states)
        o.next = self.merge(o.next)
        return o

    def s_FunctionDef(self, node, st, frame):
        st = st.copy()
        cid = next(self.uid)
        f = frame.func.nested.get(node.name)
        if f is None or f.node is not node:
            f = Func(frame.func.qual + ".<locals>." + node.name, node,
                     frame.module, frame.func.cls, frame.func)
        self.closures[cid] = (f, frame)
        st.env[(frame.id, node.name)] = ("closure", cid)
        o = Outs()
        o.next = [st]
        return o

    def s_ClassDef(self, node, st, frame):
        st = st.copy()
        st.env[(frame.id, node.name)] = ("localclass", node.name)
        o = Outs()
        o.next = [st]
        return o

    def s_Raise(self, node, st, frame):
        o = Outs()
        if node.exc is None:
            e = st.exc[-1] if st.exc else Exc(ANY, ("p", "<reraise>"),
                                              node.lineno, frame.func.qual)
            o.exc.append((st, e))
            return o
        for s, t in self.eval(node.exc, st, frame):
            ctx = ("excval", st.exc[-1].cls, st.exc[-1].term) if st.exc else None
            states = [(s, ctx)]
            if node.cause is not None:
                states = self.eval(node.cause, s, frame)
            for s2, cause in states:
                cls = self.exc_class(t, s2)
                if t[0] == "excval":
                    o.exc.append((s2, Exc(t[1], t, node.lineno,
                                          frame.func.qual, cause=cause)))
                else:
                    o.exc.append((s2, Exc(cls, t, node.lineno,
                                          frame.func.qual, cause=cause)))
        return o

    def exc_class(self, t, st):
        if t[0] == "new":
            return t[1]
        if t[0] == "g":
            return t[1]
        if t[0] == "b":
            return t[1]
        if t[0] == "excval":
            return t[1]
        if t[0] == "call":
            f = t[1]
            if f[0] == "b":
                return f[1]
            if f[0] == "g":
                return f[1]
            if f[0] == "classof" and f[1][0] == "excval":
                return f[1][1]
        return self.spec.type_of(t, st) or ANY

    # ---------------------------------------------------------- handlers ---
    def handler_types(self, h, st, frame):
        if h.type is None:
            return ["BaseException"]
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            q = self.prog.resolve_dotted(frame.module, n)
            if isinstance(n, ast.Name):
                t = st.env.get((frame.id, n.id))
                if t is not None and t[0] == "g":
                    q = t[1]
                elif t is not None and t[0] == "tuple":
                    out.extend(x[1] for x in t[1])
                    continue
                elif n.id in frame.module.assigns and q and \
                        q not in self.prog.classes:
                    v = frame.module.assigns[n.id][-1]
                    if isinstance(v, ast.Tuple):
                        out.extend(self.prog.resolve_dotted(frame.module, e)
                                   for e in v.elts)
                        continue
            out.append(q or "?")
        return out

    def exc_match(self, cls, htypes):
        "yes / no / maybe"
        if cls in htypes:
            return "yes"
        if any(h in ("BaseException",) for h in htypes):
            return "yes"
        if cls == ANY or cls is None:
            if "Exception" in htypes:
                return "yes"
            return "maybe"
        if cls == "BASE":
            return "maybe"
        bases = self.prog.exc_bases(cls)
        short = {b.rpartition(".")[2] for b in bases}
        for h in htypes:
            if h in bases:
                return "yes"
            if h not in self.prog.classes and h.rpartition(".")[2] in short \
                    and h.rpartition(".")[2] in bases:
                return "yes"
        if cls.startswith("~"):
            return "maybe"
        return "no"

    def s_Try(self, node, st, frame):
        o = Outs()
        htypes = []
        for h in node.handlers:
            htypes.append(self.handler_types(h, st, frame))
        saved = frame.handlers
        saved_raises, frame.raises = frame.raises, []
        if self.spec.implicit_raises and node.handlers:
            frame.handlers = frame.handlers + tuple(
                t for ts in htypes for t in ts)
        body = self.exec_block(node.body, [st], frame)
        frame.handlers = saved
        excs = body.exc + frame.raises
        frame.raises = []
        nexts = body.next
        if node.orelse:
            r = self.exec_block(node.orelse, nexts, frame)
            nexts = r.next
            body.ret.extend(r.ret)
            body.brk.extend(r.brk)
            body.cont.extend(r.cont)
            uncaught = list(r.exc)
        else:
            uncaught = []
        results = Outs()
        results.next = nexts
        results.ret, results.brk, results.cont = body.ret, body.brk, body.cont
        for s, e in self.merge_vals(excs):
            live = True
            for h, ts in zip(node.handlers, htypes):
                m = self.exc_match(e.cls, ts)
                if m == "no":
                    continue
                ecls = e.cls
                if m == "maybe" or (ecls == ANY and ts and
                                    ts[0] not in ("Exception", "BaseException")):
                    ecls = ts[0]
                r = self.run_handler(h, s, Exc(ecls, e.term, e.line, e.fn,
                                               e.origin, e.cause), frame)
                for name in Outs.__slots__:
                    getattr(results, name).extend(getattr(r, name))
                if m == "yes":
                    live = False
                    break
            if live and e.origin != "implicit":
                uncaught.append((s, e))
        results.exc.extend(uncaught)
        frame.raises = saved_raises
        if node.finalbody:
            results = self.run_finally(node.finalbody, results, frame)
        results.next = self.merge(results.next)
        return results

    s_TryStar = s_Try

    def run_handler(self, h, st, e, frame):
        st = st.copy()
        st.exc = st.exc + (e,)
        if h.name:
            st.env[(frame.id, h.name)] = ("excval", e.cls, e.term)
        saved, frame.raises = frame.raises, []
        self.emit(st, frame, "handler", (e.cls, e.term), h)
        r = self.exec_block(h.body, [st], frame)
        r.exc.extend(frame.raises)
        frame.raises = saved
        out = Outs()

        def pop(s):
            s = s.copy()
            s.exc = s.exc[:-1]
            if h.name:
                s.env.pop((frame.id, h.name), None)
            return s
        out.next = [pop(s) for s in r.next]
        out.brk = [pop(s) for s in r.brk]
        out.cont = [pop(s) for s in r.cont]
        out.ret = [(pop(s), v) for s, v in r.ret]
        out.exc = [(pop(s), x) for s, x in r.exc]
        return out

    def run_finally(self, body, outs, frame):
        res = Outs()

        def go(states, cont):
            for s in states:
                saved, frame.raises = frame.raises, []
                r = self.exec_block(body, [s], frame)
                r.exc.extend(frame.raises)
                frame.raises = saved
                for s2 in r.next:
                    cont(s2)
                res.ret.extend(r.ret)
                res.exc.extend(r.exc)
                res.brk.extend(r.brk)
                res.cont.extend(r.cont)
        go(self.merge(outs.next), res.next.append)
        go(self.merge(outs.brk), res.brk.append)
        go(self.merge(outs.cont), res.cont.append)
        for s, v in self.merge_vals(outs.ret):
            go([s], lambda s2, v=v: res.ret.append((s2, v)))
        for s, e in self.merge_vals(outs.exc):
            go([s], lambda s2, e=e: res.exc.append((s2, e)))
        return res

    # --------------------------------------------------------------- with ---
    def s_With(self, node, st, frame):
        return self.with_items(node, list(node.items), st, frame)

    s_AsyncWith = s_With

    def with_items(self, node, items, st, frame):
        if not items:
            return self.exec_block(node.body, [st], frame)
        item, rest = items[0], items[1:]
        o = Outs()
        for s, cm in self.eval(item.context_expr, st, frame):
            r = self.with_one(node, item, cm, rest, s, frame)
            for name in Outs.__slots__:
                getattr(o, name).extend(getattr(r, name))
        o.next = self.merge(o.next)
        return o

    def with_one(self, node, item, cm, rest, st, frame):
        def body(s, enter_val):
            ss = [s]
            if item.optional_vars is not None:
                ss = self.assign(item.optional_vars, enter_val, s, frame, node)
            out = Outs()
            for s1 in ss:
                saved, frame.raises = frame.raises, []
                r = self.with_items(node, rest, s1, frame)
                r.exc.extend(frame.raises)
                frame.raises = saved
                for name in Outs.__slots__:
                    getattr(out, name).extend(getattr(r, name))
            return out
        # a generator-based context manager of the project
        if cm[0] == "gencm":
            _, qual, args, kwargs, selfterm = cm[:5]
            func = self.prog.functions.get(qual)
            if func is None:
                func = self.closures[qual][0]
            return self.run_gencm(func, args, kwargs, selfterm, st, frame,
                                  node, body)
        cls = self.class_of(cm, st)
        if cls in self.prog.classes:
            ent = self.prog.find_method(cls, "__enter__")
            ext = self.prog.find_method(cls, "__exit__")
            if ent is not None and ext is not None and \
                    self.spec.inline(ent, frame):
                o = Outs()
                eo = self.call_function(ent, cm, (), (), st, frame, node)
                o.exc.extend(eo.exc)
                for s, v in eo.ret:
                    r = body(s, v)
                    self.cm_exit(ext, cm, r, frame, node, o)
                return o
        # external or opaque context manager: transparent
        self.emit(st, frame, "with", (cm,), node)
        r = body(st, ("entered", cm))
        f = cm[1] if cm[0] == "call" else None
        if f is not None and f[0] == "g" and f[1].endswith("suppress"):
            for s, e in r.exc:
                r.next.append(s)
            r.exc = []
        elif self.swallows(cm):
            for s, e in r.exc:
                r.next.append(s)
        o = Outs()
        for name in Outs.__slots__:
            for x in getattr(r, name):
                s = x[0] if isinstance(x, tuple) else x
                s = s.copy()
                self.emit(s, frame, "endwith", (cm,), node)
                getattr(o, name).append((s, x[1]) if isinstance(x, tuple) else s)
        return o

    def swallows(self, cm):
        return False

    def cm_exit(self, ext, cm, r, frame, node, o):
        def go(states, cont):
            for s in states:
                x = self.call_function(ext, cm, (NONE, NONE, NONE), (), s,
                                       frame, node)
                o.exc.extend(x.exc)
                for s2, _ in x.ret:
                    cont(s2)
        go(self.merge(r.next), o.next.append)
        go(self.merge(r.brk), o.brk.append)
        go(self.merge(r.cont), o.cont.append)
        for s, v in self.merge_vals(r.ret):
            go([s], lambda s2, v=v: o.ret.append((s2, v)))
        for s, e in self.merge_vals(r.exc):
            et = ("excval", e.cls, e.term)
            x = self.call_function(
                ext, cm, (("classof", et), et, ("p", "<traceback>")), (), s,
                frame, node)
            o.exc.extend(x.exc)
            for s2, v in x.ret:
                tr, fa = self.split(v, s2)
                for s3 in tr:
                    s3 = s3.copy()
                    self.emit(s3, frame, "swallowed", (e.cls, cm), node)
                    o.next.append(s3)
                for s3 in fa:
                    o.exc.append((s3, e))

    def run_gencm(self, func, args, kwargs, selfterm, st, frame, node, body):
        def cb(s, v, ynode):
            r = body(s, v)
            out = Outs()
            out.next = list(r.next)
            for kind, lst in (("brk", r.brk), ("cont", r.cont)):
                for s2 in lst:
                    s2 = s2.copy()
                    s2.pend = (kind, None)
                    out.next.append(s2)
            for s2, v2 in r.ret:
                s2 = s2.copy()
                s2.pend = ("ret", v2)
                out.next.append(s2)
            out.exc = list(r.exc)
            return out
        r = self.call_function(func, selfterm, args, kwargs, st, frame, node,
                               yield_cb=cb)
        o = Outs()
        o.exc = list(r.exc)
        for s, _ in r.ret:
            if s.pend is None:
                o.next.append(s)
                continue
            kind, v = s.pend
            s = s.copy()
            s.pend = None
            if kind == "ret":
                o.ret.append((s, v))
            else:
                getattr(o, kind).append(s)
        return o

    # --------------------------------------------------------------- loops ---
    def s_For(self, node, st, frame):
        o = Outs()
        for s, it in self.eval(node.iter, st, frame):
            r = self.loop(node, it, s, frame)
            for name in Outs.__slots__:
                getattr(o, name).extend(getattr(r, name))
        o.next = self.merge(o.next)
        return o

    s_AsyncFor = s_For

    def s_While(self, node, st, frame):
        return self.loop(node, None, st, frame)

    def elems(self, it, st, tag):
        """Terms an iteration variable may take, with the extra loop context:
        list of (term, extra_loops)."""
        if it[0] == "call" and it[1][0] == "b" and not it[3]:
            name, args = it[1][1], it[2]
            if name in ELEMENTWISE and len(args) >= 1:
                return self.elems(args[0], st, tag)
            if name == "enumerate" and args:
                return [(("tuple", (("idx", args[0], tag), e)), x)
                        for e, x in self.elems(args[0], st, tag)]
            if name == "zip" and args:
                parts = []
                for a in args:
                    el = self.elems(a, st, tag)
                    parts.append(el[0][0] if len(el) == 1
                                 else ("elem", a, tag))
                return [(("tuple", tuple(parts)), ())]
            if name == "map" and len(args) == 2:
                out = []
                for e, x in self.elems(args[1], st, tag):
                    out.append((("call", args[0], (e,), ()), x))
                return out
        if it[0] == "call" and it[1][0] == "attr" and not it[3] and not it[2]:
            d, m = it[1][1], it[1][2]
            if m == "items":
                return [(("tuple", (("key", d, tag), ("val", d, tag))), ())]
            if m == "values":
                return [(("val", d, tag), ())]
            if m == "keys":
                return [(("key", d, tag), ())]
        if it[0] == "tuple":
            if it[1]:
                return [(x, ()) for x in it[1]]
            return []
        if it[0] == "obj" and it[2] in st.objs:
            ents = st.objs[it[2]]
            if ents and not any(l[0] == it for e in ents for l in e[-1]):
                out = []
                for e in ents:
                    if e[0] == "item":
                        out.append((e[1], e[2]))
                    elif e[0] == "splat":
                        out.extend((x, e[2] + y)
                                   for x, y in self.elems(e[1], st, tag))
                    elif e[0] == "kv":
                        out.append((e[1], e[3]))
                return out
        return [(("elem", it, tag), ())]

    def loop(self, node, it, st, frame):
        if self.spec.loop_mode == "unroll":
            return self.loop_unroll(node, it, st, frame)
        return self.loop_summary(node, it, st, frame)

    def loop_unroll(self, node, it, st, frame):
        o = Outs()
        loopid = (frame.func.qual, node.lineno, node.col_offset)
        frontier, seen = [st], set()
        exits = []
        for i in range(self.spec.unroll + 1):
            if not frontier:
                break
            if it is None:
                body_states = []
                for s in frontier:
                    t, f = self.cond(node.test, s, frame)
                    body_states.extend(t)
                    exits.extend(f)
            else:
                if i > 0 or not definitely_nonempty(it, st):
                    exits.extend(frontier)
                body_states = []
                for s in frontier:
                    for e, _ in self.elems(it, s, (loopid, i)):
                        body_states.extend(
                            self.assign(node.target, e, s, frame, node))
            if i == self.spec.unroll:
                break
            body_states = self.merge(body_states)
            fresh = []
            for s in body_states:
                k = (s.key(), frozenset(s.facts.items()))
                if k not in seen:
                    seen.add(k)
                    fresh.append(s)
            r = self.exec_block(node.body, fresh, frame)
            o.ret.extend(r.ret)
            o.exc.extend(r.exc)
            o.next.extend(r.brk)
            frontier = self.merge(r.next + r.cont)
        exits = self.merge(exits)
        if node.orelse:
            r = self.exec_block(node.orelse, exits, frame)
            for name in Outs.__slots__:
                getattr(o, name).extend(getattr(r, name))
        else:
            o.next.extend(exits)
        o.next = self.merge(o.next)
        return o

    def loop_summary(self, node, it, st, frame):
        o = Outs()
        loopid = (frame.func.qual, node.lineno, node.col_offset)
        tag = loopid
        names = set()
        for n in node.body:
            inner = {id(x) for m in itertools.chain([n], walk_shallow(n))
                     if isinstance(m, ast.comprehension)
                     for x in ast.walk(m.target)}   # a scope of its own
            for m in itertools.chain([n], walk_shallow(n)):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) \
                        and id(m) not in inner:
                    names.add(m.id)
        targets = set()
        if it is not None:
            targets = {m.id for m in ast.walk(node.target)
                       if isinstance(m, ast.Name)}
        # dry run to see which heap locations the body writes
        base = st.copy()
        base.loops = st.loops + ((it if it is not None else ("while",),
                                  loopid),)
        init = {}
        for n in names - targets:
            key = self.env_key(n, base, frame)
            if key in base.env:
                init[n] = base.env[key]
                if base.env[key][0] in ("obj",):
                    continue  # collections keep their identity unless rebound
                base.env[key] = ("loopvar", n, loopid)
        heap_written = None
        grown = {}
        for attempt in range(2):
            start = base.copy()
            for oid, mark in grown.items():   # what earlier iterations added
                start.objs[oid] = start.objs[oid] + (mark,)
            if heap_written:
                for loc in heap_written:
                    if start.heap.get(loc, ABSENT)[0] == "obj":
                        continue
                    start.heap[loc] = ("loopheap", loc, loopid)
                    if isinstance(loc[1], tuple):
                        start.facts.pop(("in", loc[1][1], loc[0]), None)
            start.events = ()
            body_states = []
            if it is None:
                saved, frame.raises = frame.raises, []
                t, f = self.cond(node.test, start, frame)
                body_states = t
                cond_exc, frame.raises = frame.raises, saved
                cond_false = f
            else:
                cond_exc, cond_false = [], []
                for e, extra in self.elems(it, start, tag):
                    s = start.copy()
                    s.loops = s.loops + tuple(extra)
                    body_states.extend(self.assign(node.target, e, s, frame, node))
            body_states = self.merge(body_states)
            saved, frame.raises = frame.raises, []
            r = self.exec_block(node.body, body_states, frame)
            r.exc.extend(frame.raises)
            frame.raises = saved
            ends = r.next + r.cont + r.brk
            written = set()
            for s in ends:
                for loc, v in s.heap.items():
                    if base.heap.get(loc) != v and loc not in (heap_written or ()):
                        written.add(loc)
            if attempt == 0:
                for s in ends:
                    for oid, ents in s.objs.items():
                        if oid in base.objs and ents != base.objs[oid]:
                            grown[oid] = ("splat", ("loopheap", oid, loopid),
                                          ())
            if attempt == 0 and (written or grown):
                heap_written = written
                continue
            break
        if grown:
            for s in ends:
                for oid, mark in grown.items():
                    if oid in s.objs:
                        s.objs[oid] = tuple(e for e in s.objs[oid]
                                            if e != mark)
        paths = []
        for kind, lst in (("next", r.next), ("continue", r.cont),
                          ("break", r.brk)):
            for s in lst:
                carried = []   # what the iteration leaves in local names
                for n in sorted(names):
                    v = s.env.get(self.env_key(n, s, frame))
                    if v is not None and v != ("loopvar", n, loopid):
                        carried.append((n, v))
                paths.append((kind, s.events, frozenset(s.facts.items()),
                              tuple(carried)))
        for s, v in r.ret:
            paths.append(("return", s.events, frozenset(s.facts.items())))
        for s, e in r.exc:
            paths.append(("raise", s.events, frozenset(s.facts.items())))
        itterm = it if it is not None else ("while",)
        # the state after the loop
        after = st.copy()
        for n in names | targets:
            key = self.env_key(n, after, frame)
            vals = []
            for s in ends:
                v = s.env.get(key)
                if v is not None and v not in vals:
                    vals.append(v)
            if n in init and init[n][0] == "obj" and all(v == init[n] for v in vals):
                continue
            if not vals:
                continue
            self.flows.setdefault(("loopvar", n, loopid), set()).update(
                vals + [init[n]] if n in init else vals)
            if n in init and all(v == init[n] or v == ("loopvar", n, loopid)
                                 for v in vals):
                continue
            after.env[key] = self.cap(("loopout", n, loopid, itterm,
                                       init.get(n, ABSENT),
                                       tuple(sorted(vals, key=repr))))
        changed = set()
        for s in ends:
            for loc, v in s.heap.items():
                if base.heap.get(loc) != v:
                    changed.add(loc)
        for loc in changed:
            vals = []
            for s in ends:
                v = s.heap.get(loc)
                if v is not None and v not in vals:
                    vals.append(v)
            self.flows.setdefault(("loopheap", loc, loopid), set()).update(
                vals + [st.heap.get(loc, ABSENT)])
            after.heap[loc] = ("loopout", loc, loopid, itterm,
                               st.heap.get(loc, ABSENT),
                               tuple(sorted(vals, key=repr)))
        for loc in changed:
            if isinstance(loc[1], tuple):
                after.facts.pop(("in", loc[1][1], loc[0]), None)
        for f in list(after.facts):
            if any(contains(f, lambda x, loc=loc: x == ("attr", loc[0], loc[1][1:])
                            if isinstance(loc[1], str) else
                            x == ("sub", loc[0], loc[1][1])) for loc in changed):
                del after.facts[f]
        for s in ends:  # union of what the body added to collections
            for oid, ents in s.objs.items():
                old = after.objs.get(oid, base.objs.get(oid, ()))
                extra = tuple(e for e in ents if e not in old)
                # entries of an iteration carry its conditions
                if oid in after.objs:
                    conds = frozenset(
                        (f, b) for f, b in s.facts.items()
                        if st.facts.get(f) is not b)
                    after.objs[oid] = after.objs[oid] + tuple(
                        e[:-1] + (e[-1],) for e in extra
                        if e not in after.objs[oid])
                elif oid not in base.objs:
                    after.objs[oid] = ents
        ev = Event("loop", (itterm, loopid, tuple(paths)), node.lineno,
                   frame.func.qual)
        after.events = st.events + (ev,)

        def lift(s):
            s2 = s.copy()
            s2.events = st.events + (Event("loopiter", (itterm, loopid),
                                           node.lineno, frame.func.qual),
                                     ) + s.events
            s2.loops = st.loops
            return s2
        for s, v in r.ret:
            o.ret.append((lift(s), v))
        for s, e in r.exc:
            o.exc.append((lift(s), e))
        for s, e in cond_exc:
            o.exc.append((lift(s), e))
        exits = [after]
        if it is None:
            infinite = isinstance(node.test, ast.Constant) and node.test.value
            if infinite and not r.brk:
                exits = []
            elif not infinite:
                # the loop condition is false on a normal exit
                ex = []
                a2 = after.copy()
                a2.events = ()
                saved, frame.raises = frame.raises, []
                _, f = self.cond(node.test, a2, frame)
                frame.raises = saved
                for s in f:
                    s = s.copy()
                    s.events = after.events
                    ex.append(s)
                if r.brk:
                    ex.append(after)
                exits = ex
        if node.orelse:
            rr = self.exec_block(node.orelse, exits, frame)
            for name in Outs.__slots__:
                getattr(o, name).extend(getattr(rr, name))
            if r.brk:
                o.next.append(after)
        else:
            o.next.extend(exits)
        return o

    def env_key(self, name, st, frame):
        fr = frame
        while fr is not None and name not in fr.locals and fr.lexical is not None:
            fr = fr.lexical
        return (fr.id, name)

    def s_Break(self, node, st, frame):
        o = Outs()
        o.brk = [st]
        return o

    def s_Continue(self, node, st, frame):
        o = Outs()
        o.cont = [st]
        return o

    def s_Match(self, node, st, frame):
        o = Outs()
        for s, subj in self.eval(node.subject, st, frame):
            live = [s]
            for case in node.cases:
                nxt = []
                for s1 in live:
                    ok, no = self.match_pattern(case.pattern, subj, s1, frame)
                    if case.guard is not None:
                        ok2 = []
                        for s2 in ok:
                            t, f = self.cond(case.guard, s2, frame)
                            ok2.extend(t)
                            no.extend(f)
                        ok = ok2
                    if ok:
                        r = self.exec_block(case.body, ok, frame)
                        for name in Outs.__slots__:
                            getattr(o, name).extend(getattr(r, name))
                    nxt.extend(no)
                live = nxt
            o.next.extend(live)
        return o

    def match_pattern(self, pat, subj, st, frame):
        if isinstance(pat, ast.MatchValue):
            out_t, out_f = [], []
            for s, v in self.eval(pat.value, st, frame):
                t, f = self.split(self.cmp("==", subj, v), s)
                out_t += t
                out_f += f
            return out_t, out_f
        if isinstance(pat, ast.MatchSingleton):
            return self.split(("is", subj, K(pat.value)), st)
        if isinstance(pat, ast.MatchOr):
            oks, live = [], [st]
            for p in pat.patterns:
                nxt = []
                for s in live:
                    t, f = self.match_pattern(p, subj, s, frame)
                    oks += t
                    nxt += f
                live = nxt
            return oks, live
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is None:
                s = st.copy()
                if pat.name:
                    s.env[(frame.id, pat.name)] = subj
                return [s], []
        return [st], [st]

    # ----------------------------------------------------------- conditions ---
    def cond(self, node, st, frame):
        "Splits a state on a condition: (true states, false states)."
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st, frame)
            return f, t
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            live, done = [st], []
            for v in node.values:
                nxt = []
                for s in live:
                    t, f = self.cond(v, s, frame)
                    nxt.extend(t if is_and else f)
                    done.extend(f if is_and else t)
                live = self.merge(nxt)
            return (live, done) if is_and else (done, live)
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            live, done = [(st, None)], []
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                part = ast.copy_location(ast.Compare(left, [op], [right]), node)
                nxt = []
                for s, _ in live:
                    t, f = self.cond(part, s, frame)
                    nxt.extend((x, None) for x in t)
                    done.extend(f)
                live, left = nxt, right
            return [s for s, _ in live], done
        if isinstance(node, ast.IfExp):
            t, f = self.cond(node.test, st, frame)
            a, b = [], []
            for states, sub in ((t, node.body), (f, node.orelse)):
                for s in states:
                    x, y = self.cond(sub, s, frame)
                    a.extend(x)
                    b.extend(y)
            return a, b
        ts, fs = [], []
        for s, v in self.eval(node, st, frame):
            t, f = self.split(v, s)
            ts.extend(t)
            fs.extend(f)
        return ts, fs

    def split(self, v, st):
        "Splits a state on the truth of a term."
        if v[0] == "not":
            t, f = self.split(v[1], st)
            return f, t
        if v[0] in ("and", "or"):
            live, done = [st], []
            for x in v[1]:
                nxt = []
                for s in live:
                    t, f = self.split(x, s)
                    nxt.extend(t if v[0] == "and" else f)
                    done.extend(f if v[0] == "and" else t)
                live = nxt
            return (live, done) if v[0] == "and" else (done, live)
        b = self.truth(v, st)
        if b is True:
            return [st], []
        if b is False:
            return [], [st]
        t, f = st.copy(), st.copy()
        self.learn(t, v, True)
        self.learn(f, v, False)
        return [t], [f]

    def learn(self, st, v, b):
        st.facts[v] = b
        if v[0] == "in" and not b and (v[2], ("k", v[1])) in st.heap:
            st.heap[(v[2], ("k", v[1]))] = ABSENT
        if v[0] == "in" and b and v[2][0] == "obj" and v[2][2] in st.objs:
            ents = st.objs[v[2][2]]
            if ents and all(e[0] in ("item", "kv") and is_tag(e[1])
                            for e in ents):
                st.facts[("in", v[1], ("tuple", tuple(
                    e[1] for e in ents)))] = True
        if v[0] == "call" and v[1] == ("b", "bool") and len(v[2]) == 1:
            self.learn(st, v[2][0], b)

    def truth(self, v, st):
        "True, False or None (unknown)."
        if v in st.facts:
            return st.facts[v]
        h = v[0]
        if h == "const":
            return bool(v[2])
        if h == "tuple":
            return bool(v[1])
        if h in ("closure", "localclass", "fmt"):
            return True
        if h == "g":
            c = self.prog.classes.get(v[1])
            if c is not None and not any(
                    k.arg == "metaclass" for k in c.node.keywords) or \
                    v[1] in self.prog.functions or v[1] in self.prog.modules:
                return True
            return self.spec.truth(self, st, v)
        if h == "excval":
            return True
        if h == "new":
            q = v[1]
            if q in self.prog.classes and any(
                    "." not in b and "BaseException" in self.prog.exc_bases(b)
                    for b in self.prog.external_bases(q)):
                return True
        if h == "obj":
            ents = st.objs.get(v[2])
            if ents is not None and v[2] in st.objs:
                if any(e[0] in ("item", "kv") and not e[-1] for e in ents):
                    return True
                if not ents and v[1] in ("list", "dict", "set", "tuple"):
                    return False
        if h == "call" and v[1] == ("b", "bool") and len(v[2]) == 1:
            return self.truth(v[2][0], st)
        if h == "is":
            r = self.truth_is(v, st)
            return r if r is not None else self.spec.truth(self, st, v)
        if h == "in":
            r = self.truth_in(v, st)
            if r is not None:
                return r
        if h == "cmp":
            r = self.truth_cmp(v, st)
            if r is not None:
                return r
        if h == "isinstance":
            r = self.truth_isinstance(v, st)
            if r is not None:
                return r
        if h == "hasattr":
            if (v[1], "." + v[2]) in st.heap:
                return st.heap[(v[1], "." + v[2])] != ABSENT
        r = self.spec.truth(self, st, v)
        if r is not None:
            return r
        # a value known to be None is false; one known true is not None
        if st.facts.get(("is", v, NONE)) is True:
            return False
        for f, b in st.facts.items():
            if b and f[0] == "cmp" and f[1] == "==" and f[2] == v and is_const(f[3]):
                return bool(f[3][2])
        return None

    def truth_is(self, v, st):
        a, b = v[1], v[2]
        if a == b and a[0] in ("const", "g", "p", "new", "obj"):
            return True
        if b == NONE:
            if a == NONE:
                return True
            if a[0] in ("const", "tuple", "obj", "new", "closure", "g", "fmt",
                        "bin", "excval", "localclass", "b", "cmp"):
                return False
            if st.facts.get(a) is True:
                return False
            for f, bb in st.facts.items():
                if bb and f[0] == "isinstance" and f[1] == a:
                    return False
                if bb and f[0] == "hasattr" and f[1] == a:
                    return False
                if bb and f[0] == "cmp" and f[1] == "==" and f[2] == a and \
                        is_const(f[3]) and f[3] != NONE:
                    return False
        if is_const(a) and is_const(b):
            return a == b
        return None

    def truth_in(self, v, st):
        k, c = v[1], v[2]
        loc = (c, ("k", k))
        if loc in st.heap:
            w = st.heap[loc]
            if w[0] in ("loopout", "phi", "loopheap", "old"):
                return None
            return w != ABSENT
        if is_const(k):
            items = None
            if c[0] == "tuple":
                items = c[1]
            elif c[0] == "obj" and c[2] in st.objs:
                ents = st.objs[c[2]]
                if all(e[0] in ("item", "kv") for e in ents):
                    items = tuple(e[1] for e in ents)
            elif is_const(c) and isinstance(c[2], str) and isinstance(k[2], str):
                return k[2] in c[2]
            if items is not None and all(is_const(i) for i in items):
                return k[2] in [i[2] for i in items]
        else:
            items = None
            if c[0] == "tuple":
                items = c[1]
            elif c[0] == "obj" and c[2] in st.objs and all(
                    e[0] in ("item", "kv") for e in st.objs[c[2]]):
                items = tuple(e[1] for e in st.objs[c[2]])
            if items is not None:
                res = [self.truth(self.cmp("==", k, i), st) for i in items]
                if any(r is True for r in res):
                    return True
                if all(r is False for r in res):
                    return False
        return None

    def truth_cmp(self, v, st):
        op, a, b = v[1], v[2], v[3]
        if is_const(a) and is_const(b):
            try:
                return {"==": lambda: a[2] == b[2], "<": lambda: a[2] < b[2],
                        "<=": lambda: a[2] <= b[2]}[op]()
            except TypeError:
                return None
        if op == "==":
            if is_const(b):
                for f, bb in st.facts.items():
                    if f[0] == "cmp" and f[1] == "==" and f[2] == a and bb and \
                            is_const(f[3]):
                        return f[3][2] == b[2]
                    if bb and f[0] == "in" and f[1] == a and f[2][0] == "tuple" \
                            and all(is_const(i) for i in f[2][1]):
                        if b[2] not in [i[2] for i in f[2][1]]:
                            return False
                        if all(i == b or st.facts.get(("cmp", "==", a, i))
                               is False for i in f[2][1]):
                            return True
                if st.facts.get(a) is False and b[2]:
                    return False
            if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) != len(b[1]):
                return False
        if op in ("<", "<=") and (is_const(a) or is_const(b)):
            return self.interval(op, a, b, st)
        return None

    def interval(self, op, a, b, st):
        "Decides x < c from other recorded comparisons of x with constants."
        x = b if is_const(a) else a
        lo, lo_strict, hi, hi_strict = None, False, None, False
        for f, bb in st.facts.items():
            if f[0] != "cmp":
                continue
            fop, p, q = f[1], f[2], f[3]
            try:
                if fop in ("<", "<="):
                    if q == x and is_const(p):   # c < x
                        if bb:
                            c, strict = p[2], fop == "<"
                            if lo is None or c > lo or (c == lo and strict):
                                lo, lo_strict = c, strict
                        else:                     # not c < x: x <= c
                            c, strict = p[2], fop == "<="
                            if hi is None or c < hi or (c == hi and strict):
                                hi, hi_strict = c, strict
                    elif p == x and is_const(q):  # x < c
                        if bb:
                            c, strict = q[2], fop == "<"
                            if hi is None or c < hi or (c == hi and strict):
                                hi, hi_strict = c, strict
                        else:
                            c, strict = q[2], fop == "<="
                            if lo is None or c > lo or (c == lo and strict):
                                lo, lo_strict = c, strict
                elif fop == "==" and bb and p == x and is_const(q):
                    lo = hi = q[2]
            except TypeError:
                continue
        try:
            if is_const(a):      # c op x
                c = a[2]
                if lo is not None and (lo > c or (lo == c and
                                                  (op == "<=" or lo_strict))):
                    return True
                if hi is not None and (hi < c or (hi == c and
                                                  (op == "<" or hi_strict))):
                    return False
            else:                # x op c
                c = b[2]
                if hi is not None and (hi < c or (hi == c and
                                                  (op == "<=" or hi_strict))):
                    return True
                if lo is not None and (lo > c or (lo == c and
                                                  (op == "<" or lo_strict))):
                    return False
        except TypeError:
            return None
        return None

    def truth_isinstance(self, v, st):
        x, c = v[1], v[2]
        cls = self.class_of(x, st)
        quals = self.class_terms(c, st)
        if cls is not None and quals is not None:
            if any(self.is_sub(cls, q) for q in quals):
                return True
            if cls in self.prog.classes and all(
                    q in self.prog.classes and
                    not self.prog.classes[q].metaclass for q in quals):
                return False
        if is_const(x) and quals is not None:
            names = {type(k).__name__ for k in (x[2],)} | {
                k.__name__ for k in type(x[2]).__mro__}
            if any(q in names for q in quals):
                return True
        if x[0] == "excval" and quals is not None:
            m = self.exc_match(x[1], quals)
            if m == "yes":
                return True
            if m == "no":
                return False
        return None

    def class_terms(self, c, st):
        if c[0] in ("g", "b"):
            q = c[1]
            t = self.const_tuple(q)
            if t is not None:
                return t
            return [q]
        if c[0] == "tuple":
            out = []
            for x in c[1]:
                r = self.class_terms(x, st)
                if r is None:
                    return None
                out.extend(r)
            return out
        return None

    def const_tuple(self, q):
        "Module-level tuples of classes, such as Strings or Numbers."
        head, _, tail = q.rpartition(".")
        mod = self.prog.modules.get(head)
        if mod and tail in mod.assigns and len(mod.assigns[tail]) == 1:
            v = mod.assigns[tail][0]
            if isinstance(v, ast.Tuple):
                return [self.prog.resolve_dotted(mod, e) for e in v.elts]
        return None

    def is_sub(self, cls, q):
        if cls == q:
            return True
        if cls in self.prog.classes:
            return q in self.prog.mro(cls)
        return False

    def class_of(self, t, st):
        if t[0] == "new":
            return t[1]
        if t[0] == "excval":
            return t[1]
        r = self.spec.type_of(t, st)
        if r is not None:
            return r
        if t[0] == "p" and t[1] == "self" and getattr(self, "entry_frame", None) \
                is not None:
            return self.entry_frame.cls
        if t[0] == "obj":
            return t[1]
        return None

    # ---------------------------------------------------------- expressions ---
    def eval(self, node, st, frame):
        "List of (state, term)."
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return [(st, ("unknown", ast.dump(node)))]
        return m(node, st, frame)

    def eval_many(self, nodes, st, frame):
        out = [(st, ())]
        for n in nodes:
            nxt = []
            for s, ts in out:
                if isinstance(n, ast.Starred):
                    for s2, t in self.eval(n.value, s, frame):
                        if t[0] == "tuple":
                            nxt.append((s2, ts + t[1]))
                        elif t[0] == "obj" and t[2] in s2.objs and all(
                                e[0] == "item" and not e[2]
                                for e in s2.objs[t[2]]):
                            nxt.append((s2, ts + tuple(
                                e[1] for e in s2.objs[t[2]])))
                        else:
                            nxt.append((s2, ts + (("*", t),)))
                else:
                    for s2, t in self.eval(n, s, frame):
                        nxt.append((s2, ts + (t,)))
            out = nxt
        return out

    def e_Constant(self, node, st, frame):
        return [(st, K(node.value))]

    def e_Name(self, node, st, frame):
        return [(st, self.lookup(node.id, st, frame))]

    def lookup(self, name, st, frame):
        fr = frame
        while fr is not None:
            if name in fr.locals:
                key = (fr.id, name)
                if key in st.env:
                    return st.env[key]
                if fr is frame:
                    # unbound on this path (or bound by a class body)
                    return ("unbound", name)
            fr = fr.lexical
        return self.global_term(frame.module, name, st)

    def global_term(self, mod, name, st=None):
        if st is not None:
            v = st.heap.get((("g", mod.name), "." + name))
            if v is not None:
                return v
        q = self.prog.resolve(mod, name)
        if q is not None:
            c = self.const_global(q)
            if c is not None:
                return c
            return ("g", q)
        return ("b", name)

    def const_global(self, q):
        head, _, tail = q.rpartition(".")
        mod = self.prog.modules.get(head)
        if mod is None or tail not in mod.assigns:
            return None
        vals = mod.assigns[tail]
        if len(vals) != 1:
            return None
        v = vals[0]
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and \
                isinstance(v.operand, ast.Constant):
            return K(-v.operand.value)
        if isinstance(v, ast.Constant) and not isinstance(v.value, (bytes,)):
            return K(v.value)
        return None

    def e_NamedExpr(self, node, st, frame):
        out = []
        for s, v in self.eval(node.value, st, frame):
            for s2 in self.assign(node.target, v, s, frame, node):
                out.append((s2, v))
        return out

    def e_Attribute(self, node, st, frame):
        out = []
        for s, b in self.eval(node.value, st, frame):
            out.extend(self.get_attr(b, node.attr, s, frame, node))
        return out

    def get_attr(self, b, attr, st, frame, node):
        r = self.spec.on_attr(self, st, frame, b, attr)
        if r is not None:
            return [(st, r)] if isinstance(r, tuple) else r
        loc = (b, "." + attr)
        if loc in st.heap:
            v = st.heap[loc]
            if v == ABSENT:
                return [(st, ("attr", b, attr))]
            return [(st, v)]
        if b[0] == "g":
            q = self.prog.canonical(b[1] + "." + attr)
            if b[1] in self.prog.modules or b[1] not in self.prog.classes:
                if q in self.prog.functions or q in self.prog.classes \
                        or q in self.prog.modules:
                    return [(st, ("g", q))]
                c = self.const_global(q)
                if c is not None and b[1] in self.prog.modules:
                    return [(st, c)]
                if b[1] in self.prog.modules or not self.is_object(b[1]):
                    return [(st, ("g", q))]
        if b[0] == "excval" and attr == "__class__":
            return [(st, ("classof", b))]
        cls = self.class_of(b, st)
        if attr == "__class__" and cls in self.prog.classes:
            return [(st, ("g", cls))]
        if cls in self.prog.classes:
            f = self.prog.find_method(cls, attr)
            if f is not None and f.is_property and self.spec.inline(f, frame) \
                    and frame.depth < self.spec.max_depth \
                    and f.qual not in self.active:
                o = self.call_function(f, b, (), (), st, frame, node)
                frame.raises.extend(o.exc)
                return o.ret
        self.implicit(st, frame, "attr", ("attr", b, attr), node)
        return [(st, ("attr", b, attr))]

    def is_object(self, q):
        "Whether a dotted name is a module-level object of the project."
        head, _, tail = q.rpartition(".")
        mod = self.prog.modules.get(head)
        return mod is not None and tail in mod.assigns

    def e_Subscript(self, node, st, frame):
        out = []
        for s, b in self.eval(node.value, st, frame):
            for s2, k in self.eval(node.slice, s, frame):
                out.extend(self.get_item(b, k, s2, frame, node))
        return out

    def get_item(self, b, k, st, frame, node):
        r = self.spec.on_sub(self, st, frame, b, k)
        if r is not None:
            return r
        loc = (b, ("k", k))
        if loc in st.heap and st.heap[loc] != ABSENT:
            if st.heap[loc][0] == "loopheap" and st.heap[loc][1] == loc:
                self.emit(st, frame, "getitem", (b, k), node)
            return [(st, st.heap[loc])]
        table = self.table(b, k, st)
        if table:
            hits, miss = self.lookup_table(table, k, st)
            for s in miss:
                frame.raises.append((s, Exc(
                    "KeyError", ("sub", b, k), getattr(node, "lineno", 0),
                    frame.func.qual, "implicit")))
            return hits
        t = self.index(b, k, st)
        if t[0] == "sub":
            self.implicit(st, frame, "sub", t, node)
        if t[0] == "sub" or t[0] == "loopheap" and t[1] == loc:
            self.emit(st, frame, "getitem", (b, k), node)
        return [(st, t)]

    def table(self, b, k, st):
        "Entries of a dictionary whose keys are all constant, else None."
        if is_const(k):
            return None
        if b[0] == "obj" and b[1] == "dict" and b[2] in st.objs:
            ents = st.objs[b[2]]
            if ents and len(ents) <= 8 and all(
                    e[0] == "kv" and is_tag(e[1]) and not e[-1]
                    for e in ents):
                return [(e[1], st.heap.get((b, ("k", e[1])), e[2]))
                        for e in ents]
        if b[0] == "g":
            head, _, tail = b[1].rpartition(".")
            mod = self.prog.modules.get(head)
            vals = mod.assigns.get(tail, ()) if mod else ()
            if len(vals) == 1 and isinstance(vals[0], ast.Dict) and \
                    0 < len(vals[0].keys) <= 8 and all(
                        isinstance(x, ast.Constant) for x in vals[0].keys):
                fr = self.module_frame(mod)
                out = []
                for x, v in zip(vals[0].keys, vals[0].values):
                    r = self.eval(v, st, fr)
                    if len(r) != 1:
                        return None
                    v = r[0][1]
                    if v[0] == "obj":   # one object, shared by every reader
                        v = ("sub", b, K(x.value))
                    out.append((K(x.value), v))
                return out
        return None

    def module_frame(self, mod):
        func = Func(mod.name + ".<module>", ast.parse("def f(): pass").body[0],
                    mod)
        return Frame(func)

    def lookup_table(self, table, k, st):
        "([(state, value)], [states where the key is none of them])."
        hits, live = [], [st]
        for key, v in table:
            nxt = []
            for s in live:
                eq = self.cmp("==", k, key)
                t, f = self.split(eq, s)
                for x in t:
                    x = x.copy()
                    x.facts[eq] = True
                    hits.append((x, v))
                nxt.extend(f)
            live = nxt
        return hits, live

    def e_Slice(self, node, st, frame):
        parts = [node.lower, node.upper, node.step]
        out = [(st, ())]
        for p in parts:
            nxt = []
            for s, ts in out:
                if p is None:
                    nxt.append((s, ts + (NONE,)))
                else:
                    nxt.extend((s2, ts + (t,)) for s2, t in self.eval(p, s, frame))
            out = nxt
        return [(s, ("slice",) + ts) for s, ts in out]

    def e_Tuple(self, node, st, frame):
        return [(s, ("tuple", ts)) for s, ts in
                self.eval_many(node.elts, st, frame)]

    def new_obj(self, kind, entries, st, node=None, frame=None):
        st = st.copy()
        oid = next(self.uid)
        st.objs[oid] = entries
        return st, ("obj", kind, oid)

    def e_List(self, node, st, frame):
        out = []
        for s, ts in self.eval_many(node.elts, st, frame):
            ents = ()
            for t in ts:
                if t[0] == "*":
                    ents += self.splat(t[1], s)
                else:
                    ents += (("item", t, ()),)
            ents = tuple(e[:-1] + (() if e[0] == "item" and e[-1] == s.loops
                                   else e[-1],) for e in ents)
            s2, o = self.new_obj("list", ents, s)
            out.append((s2, o))
        return out

    def e_Set(self, node, st, frame):
        out = []
        for s, ts in self.eval_many(node.elts, st, frame):
            s2, o = self.new_obj("set", tuple(("item", t, ()) for t in ts), s)
            out.append((s2, o))
        return out

    def e_Dict(self, node, st, frame):
        out = [(st, ())]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, ents in out:
                if k is None:
                    for s2, t in self.eval(v, s, frame):
                        nxt.append((s2, ents + (("splat", t, ()),)))
                else:
                    for s1, kt in self.eval(k, s, frame):
                        for s2, vt in self.eval(v, s1, frame):
                            nxt.append((s2, ents + (("kv", kt, vt, ()),)))
            out = nxt
        res = []
        for s, ents in out:
            s2, o = self.new_obj("dict", ents, s)
            for e in ents:
                if e[0] == "kv":
                    s2.heap[(o, ("k", e[1]))] = e[2]
            res.append((s2, o))
        return res

    def e_JoinedStr(self, node, st, frame):
        out = [(st, ())]
        for v in node.values:
            nxt = []
            for s, ts in out:
                if isinstance(v, ast.FormattedValue):
                    for s2, t in self.eval(v.value, s, frame):
                        nxt.append((s2, ts + (t,)))
                else:
                    nxt.append((s, ts + (K(v.value),)))
            out = nxt
        return [(s, ("fmt", ts)) for s, ts in out]

    def e_BinOp(self, node, st, frame):
        op = OPS[type(node.op)]
        out = []
        for s, a in self.eval(node.left, st, frame):
            for s2, b in self.eval(node.right, s, frame):
                if op == "+" and a[0] == "obj" and a[1] == "list" and \
                        a[2] in s2.objs and (b[0] in ("obj", "attr", "call",
                                                      "p", "elem")):
                    ents = self.splat(a, s2) + self.splat(b, s2)
                    s3, o = self.new_obj("list", ents, s2)
                    out.append((s3, o))
                    continue
                t = self.binop(op, a, b)
                self.implicit(s2, frame, "bin", t, node)
                self.emit(s2, frame, "bin", (t,), node)
                out.append((s2, t))
        return out

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            try:
                if op in FOLD and not (op == "%" and isinstance(a[2], str)):
                    return K(FOLD[op](a[2], b[2]))
            except Exception:  # pylint: disable=broad-except
                pass
        if op == "+" and a[0] == "tuple" and b[0] == "tuple":
            return ("tuple", a[1] + b[1])
        return ("bin", op, a, b)

    def e_UnaryOp(self, node, st, frame):
        out = []
        for s, t in self.eval(node.operand, st, frame):
            if isinstance(node.op, ast.Not):
                if is_const(t):
                    out.append((s, K(not t[2])))
                else:
                    b = self.truth(t, s)
                    out.append((s, K(not b) if b is not None else negate(t)))
            elif isinstance(node.op, ast.USub):
                if is_const(t) and isinstance(t[2], (int, float)):
                    out.append((s, K(-t[2])))
                else:
                    out.append((s, ("neg", t)))
            elif isinstance(node.op, ast.UAdd):
                out.append((s, t))
            else:
                out.append((s, ("invert", t)))
        return out

    def e_BoolOp(self, node, st, frame):
        """Value of and/or.  Evaluation order and short-circuiting are kept by
        splitting when an operand is a call; otherwise a joint term."""
        is_and = isinstance(node.op, ast.And)
        out = []
        live = [st]
        for i, v in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in live:
                for s2, t in self.eval(v, s, frame):
                    if last:
                        out.append((s2, t))
                        continue
                    tr, fa = self.split(t, s2)
                    stop, go = (fa, tr) if is_and else (tr, fa)
                    for x in stop:
                        if t[0] in ("cmp", "is", "in", "not", "isinstance",
                                    "hasattr"):
                            out.append((x, K(not is_and)))
                        else:
                            out.append((x, t))
                    nxt.extend(go)
            live = nxt
        return out

    def e_Compare(self, node, st, frame):
        if len(node.ops) > 1:
            t, f = self.cond(node, st, frame)
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        out = []
        for s, a in self.eval(node.left, st, frame):
            for s2, b in self.eval(node.comparators[0], s, frame):
                t = self.compare(node.ops[0], a, b)
                self.emit(s2, frame, "compare", (t,), node)
                self.implicit(s2, frame, "cmp", t, node)
                r = None
                if t[0] in ("is", "in", "cmp", "not"):
                    inner, neg = (t[1], True) if t[0] == "not" else (t, False)
                    if inner[0] != "cmp":
                        r = self.truth(inner, s2)
                        if r is not None and neg:
                            r = not r
                if r is not None and self.definite(t, s2):
                    out.append((s2, K(r)))
                elif self.spec.now(t):
                    ts, fs = self.split(t, s2)
                    out.extend((x, TRUE) for x in ts)
                    out.extend((x, FALSE) for x in fs)
                else:
                    out.append((s2, t))
        return out

    def definite(self, t, st):
        return True

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == "Is":
            return ("is", b, a) if a == NONE and b != NONE else ("is", a, b)
        if n == "IsNot":
            return ("not", ("is", b, a) if a == NONE and b != NONE else ("is", a, b))
        if n == "In":
            return ("in", a, b)
        if n == "NotIn":
            return ("not", ("in", a, b))
        return self.cmp({"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=",
                         "Gt": ">", "GtE": ">="}[n], a, b)

    def cmp(self, op, a, b):
        if op == ">":
            return ("cmp", "<", b, a)
        if op == ">=":
            return ("cmp", "<=", b, a)
        if op == "!=":
            return ("not", self.cmp("==", a, b))
        if op == "==" and is_const(a) and not is_const(b):
            return ("cmp", "==", b, a)
        return ("cmp", op, a, b)

    def e_IfExp(self, node, st, frame):
        t, f = self.cond(node.test, st, frame)
        out = []
        for s in t:
            out.extend(self.eval(node.body, s, frame))
        for s in f:
            out.extend(self.eval(node.orelse, s, frame))
        return out

    def e_Lambda(self, node, st, frame):
        cid = next(self.uid)
        f = Func(frame.func.qual + ".<lambda>", node, frame.module,
                 frame.func.cls, frame.func)
        self.closures[cid] = (f, frame)
        return [(st, ("closure", cid))]

    def e_Starred(self, node, st, frame):
        return [(s, ("*", t)) for s, t in self.eval(node.value, st, frame)]

    def e_Await(self, node, st, frame):
        return self.eval(node.value, st, frame)

    def e_Yield(self, node, st, frame):
        r = self.do_yield(node, st, frame)
        frame.raises.extend(r.exc)
        return [(s, ("yielded",)) for s in r.next]

    e_YieldFrom = e_Yield

    def e_ListComp(self, node, st, frame):
        return self.comp(node, "list", st, frame)

    def e_SetComp(self, node, st, frame):
        return self.comp(node, "set", st, frame)

    def e_GeneratorExp(self, node, st, frame):
        return self.comp(node, "gen", st, frame)

    def e_DictComp(self, node, st, frame):
        return self.comp(node, "dict", st, frame)

    def comp(self, node, kind, st, frame):
        "Comprehensions: a fresh collection filled by a loop nest."
        out = []
        for s, it in self.eval(node.generators[0].iter, st, frame):
            out.extend(self.comp_over(node, kind, it, s, frame))
        return out

    def comp_over(self, node, kind, first, st, frame):
        st, obj = self.new_obj(kind, (), st)
        # comprehension variables live in a scope of their own
        sub = Frame.__new__(Frame)
        sub.__dict__.update(frame.__dict__)
        sub.id = next(Frame.ids)
        sub.lexical = frame
        sub.locals = {m.id for g in node.generators for m in ast.walk(g.target)
                      if isinstance(m, ast.Name)}
        sub.raises = frame.raises
        entries = []
        paths = []
        loopid = (frame.func.qual, node.lineno, node.col_offset)

        def level(i, s):
            if i == len(node.generators):
                if kind == "dict":
                    for s1, k in self.eval(node.key, s, sub):
                        for s2, v in self.eval(node.value, s1, sub):
                            entries.append(("kv", k, v, s2.loops))
                            paths.append(("next", s2.events,
                                          frozenset(s2.facts.items()), s2,
                                          entries[-1]))
                else:
                    for s2, v in self.eval(node.elt, s, sub):
                        entries.append(("item", v, s2.loops))
                        paths.append(("next", s2.events,
                                      frozenset(s2.facts.items()), s2,
                                      entries[-1]))
                return
            g = node.generators[i]
            for s1, it in self.eval(g.iter, s, sub) if i else [(s, first)]:
                for e, extra in self.elems(it, s1, loopid + (i,)):
                    s2 = s1.copy()
                    s2.loops = s2.loops + ((it, loopid + (i,)),) + tuple(extra)
                    for s3 in self.assign(g.target, e, s2, sub, node):
                        live = [s3]
                        for c in g.ifs:
                            nxt = []
                            for s4 in live:
                                t, f = self.cond(c, s4, sub)
                                nxt.extend(t)
                                for s5 in f:
                                    paths.append(("skip", s5.events,
                                                  frozenset(s5.facts.items()),
                                                  s5, None))
                            live = nxt
                        for s4 in live:
                            level(i + 1, s4)
        # the first iterable has been evaluated, once, outside
        base = st
        inner = base.copy()
        inner.events = ()
        level(0, inner)
        after = base.copy()
        conds = []
        for kind_, ev, facts, s, entry in paths:
            conds.append((kind_, ev, facts, entry))
            for loc, v in s.heap.items():   # side effects of calls
                if loc not in after.heap:
                    after.heap[loc] = v
            for oid, ents in s.objs.items():
                if oid not in after.objs:
                    after.objs[oid] = ents
        after.objs[obj[2]] = tuple(entries)
        if any(p[1] for p in paths) or True:
            self.emit(after, frame, "loop",
                      (("comp", obj), loopid, tuple(conds)), node)
        frame.raises = sub.raises
        return [(after, obj)]

    # ----------------------------------------------------------------- calls ---
    def e_Call(self, node, st, frame):
        self.stats["calls"] += 1
        out = []
        # super()
        if isinstance(node.func, ast.Attribute) and isinstance(
                node.func.value, ast.Call) and isinstance(
                    node.func.value.func, ast.Name) and \
                node.func.value.func.id == "super":
            return self.call_super(node, st, frame)
        for s, f in self.eval_callee(node.func, st, frame):
            for s2, args in self.eval_many(node.args, s, frame):
                for s3, kwargs in self.eval_kwargs(node.keywords, s2, frame):
                    out.extend(self.call(f, args, kwargs, s3, frame, node))
        return out

    def eval_callee(self, node, st, frame):
        if isinstance(node, ast.Attribute):
            out = []
            for s, b in self.eval(node.value, st, frame):
                loc = (b, "." + node.attr)
                if b[0] == "g" or loc in s.heap or node.attr == "__class__":
                    out.extend(self.get_attr(b, node.attr, s, frame, node))
                else:
                    r = self.spec.on_attr(self, s, frame, b, node.attr)
                    if r is not None and isinstance(r, tuple):
                        out.append((s, r))
                    else:
                        out.append((s, ("attr", b, node.attr)))
            return out
        return self.eval(node, st, frame)

    def eval_kwargs(self, kws, st, frame):
        out = [(st, ())]
        for kw in kws:
            nxt = []
            for s, ks in out:
                for s2, t in self.eval(kw.value, s, frame):
                    if kw.arg is None:
                        if t[0] == "obj" and t[2] in s2.objs and all(
                                e[0] == "kv" and is_const(e[1])
                                for e in s2.objs[t[2]]):
                            nxt.append((s2, ks + tuple(
                                (e[1][2], s2.heap.get((t, ("k", e[1])), e[2]))
                                for e in s2.objs[t[2]])))
                        else:
                            nxt.append((s2, ks + (("**", t),)))
                    else:
                        nxt.append((s2, ks + ((kw.arg, t),)))
            out = nxt
        return [(s, tuple(sorted(ks, key=lambda x: x[0]))) for s, ks in out]

    def call_super(self, node, st, frame):
        out = []
        fn = frame.func
        while fn.cls is None and fn.parent is not None:
            fn = fn.parent
        owner = fn.cls.qual if fn.cls is not None else None
        name = node.func.attr
        fr = frame
        selfname = (fr.func.params() or ["self"])[0]
        selft = self.lookup(selfname, st, frame)
        for s, args in self.eval_many(node.args, st, frame):
            for s2, kwargs in self.eval_kwargs(node.keywords, s, frame):
                cls = self.class_of(selft, s2) or frame.cls or owner
                f = None
                if owner is not None and cls in self.prog.classes:
                    f = self.prog.find_method(cls, name, after=owner)
                term = ("supercall", owner, name)
                r = self.spec.on_call(self, s2, frame,
                                      ("attr", ("super", selft, owner), name),
                                      args, kwargs, node)
                if r is not None:
                    out.extend(r)
                elif f is not None and self.can_inline(f, frame):
                    o = self.call_function(f, selft, args, kwargs, s2, frame,
                                           node)
                    frame.raises.extend(o.exc)
                    out.extend(o.ret)
                else:
                    out.extend(self.opaque(("attr", ("super", selft, owner),
                                            name), args, kwargs, s2, frame,
                                           node))
        return out

    def can_inline(self, f, frame):
        return (f is not None and frame.depth < self.spec.max_depth
                and self.active.count(f.qual) < 1
                and self.spec.inline(f, frame))

    def call(self, f, args, kwargs, st, frame, node):
        r = self.spec.on_call(self, st, frame, f, args, kwargs, node)
        if r is not None:
            return r
        h = f[0]
        if h == "closure":
            func, lex = self.closures[f[1]]
            if frame.depth < self.spec.max_depth and \
                    self.active.count(func.qual) < 2:
                if func.is_generator and not func.is_contextmanager:
                    return self.call_generator(func, None, args, kwargs, st,
                                               frame, node, lex)
                if func.is_contextmanager:
                    return [(st, ("gencm", f[1], args, kwargs, None))]
                o = self.call_function(func, None, args, kwargs, st, frame,
                                       node, lexical=lex)
                frame.raises.extend(o.exc)
                return o.ret
        if h == "g":
            q = f[1]
            if q in self.prog.functions:
                func = self.prog.functions[q]
                selft = None
                return self.call_project(func, selft, f, args, kwargs, st,
                                         frame, node)
            if q in self.prog.classes:
                return self.construct(q, args, kwargs, st, frame, node)
            # Class.method through an explicit class
            head, _, tail = q.rpartition(".")
            if head in self.prog.classes:
                func = self.prog.find_method(head, tail)
                if func is not None:
                    if func.is_static:
                        return self.call_project(func, None, f, args, kwargs,
                                                 st, frame, node)
                    if func.is_classmethod:
                        return self.call_project(func, ("g", head), f, args,
                                                 kwargs, st, frame, node)
                    if args:
                        return self.call_project(func, args[0], f, args[1:],
                                                 kwargs, st, frame, node)
        if h == "attr":
            b, name = f[1], f[2]
            if b[0] == "g" and b[1] in self.prog.classes:
                func = self.prog.find_method(b[1], name)
                if func is not None:
                    if func.is_static:
                        return self.call_project(func, None, f, args, kwargs,
                                                 st, frame, node)
                    if func.is_classmethod:
                        return self.call_project(func, b, f, args, kwargs, st,
                                                 frame, node)
                    if args:
                        return self.call_project(func, args[0], f, args[1:],
                                                 kwargs, st, frame, node)
            r = self.container_method(b, name, args, kwargs, st, frame, node)
            if r is not None:
                return r
            cls = self.class_of(b, st)
            if cls in self.prog.classes:
                func = self.prog.find_method(cls, name)
                if func is not None:
                    selft = None if func.is_static else b
                    return self.call_project(func, selft, f, args, kwargs, st,
                                             frame, node)
        if h == "b":
            r = self.builtin(f[1], args, kwargs, st, frame, node)
            if r is not None:
                return r
        return self.opaque(f, args, kwargs, st, frame, node)

    def call_project(self, func, selft, f, args, kwargs, st, frame, node):
        if func.is_property and selft is not None and f[0] == "attr":
            pass
        if func.is_contextmanager:
            self.emit(st, frame, "call", (f, args, kwargs), node)
            if self.can_inline(func, frame):
                return [(st, ("gencm", func.qual, args, kwargs, selft))]
        elif self.can_inline(func, frame):
            self.emit(st, frame, "inlined", (f, args, kwargs), node)
            if func.is_generator:
                return self.call_generator(func, selft, args, kwargs, st,
                                           frame, node)
            o = self.call_function(func, selft, args, kwargs, st, frame, node)
            frame.raises.extend(o.exc)
            return o.ret
        if f[0] != "attr" and selft is not None:
            f = ("attr", selft, func.name) if not func.is_static else f
        elif f[0] == "attr" and f[1][0] == "g" and selft is not None and \
                f[1] != selft:
            args = (selft,) + tuple(args)   # Class.method(receiver, ...)
        return self.opaque(f, args, kwargs, st, frame, node)

    def call_generator(self, func, selft, args, kwargs, st, frame, node,
                       lexical=None):
        st, gen = self.new_obj("gen", (), st)
        o = self.call_function(func, selft, args, kwargs, st, frame, node,
                               lexical=lexical, gen=gen)
        frame.raises.extend(o.exc)
        return [(s, gen) for s, _ in o.ret]

    def bind_args(self, func, selft, args, kwargs, st, frame, new):
        "Binds arguments to parameters in st.env (in place)."
        a = func.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = list(args)
        if selft is not None:
            vals = [selft] + vals
        kw = dict(k for k in kwargs if k[0] != "**")
        splats = [v for k, v in kwargs if k == "**"]
        star_in = any(v[0] == "*" for v in vals)
        bound = {}
        i = 0
        for p in pos:
            if i < len(vals) and vals[i][0] != "*":
                bound[p] = vals[i]
                i += 1
            elif i < len(vals):
                bound[p] = ("starred", vals[i][1], p)
            elif p in kw:
                bound[p] = kw.pop(p)
        rest = tuple(vals[i:])
        for p in [x.arg for x in a.kwonlyargs]:
            if p in kw:
                bound[p] = kw.pop(p)
        if a.vararg:
            if len(rest) == 1 and rest[0][0] == "*":
                bound[a.vararg.arg] = rest[0][1]
            else:
                bound[a.vararg.arg] = ("tuple", rest)
        if a.kwarg:
            ents = tuple(("kv", K(k), v, ()) for k, v in sorted(kw.items()))
            ents += tuple(("splat", v, ()) for v in splats)
            oid = next(self.uid)
            st.objs[oid] = ents
            o = ("obj", "dict", oid)
            for e in ents:
                if e[0] == "kv":
                    st.heap[(o, ("k", e[1]))] = e[2]
            bound[a.kwarg.arg] = o
        # defaults
        defaults = dict(zip(reversed(pos), reversed(a.defaults)))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in bound:
                if splats:
                    d = defaults.get(p)
                    dt = ABSENT
                    if isinstance(d, ast.Constant):
                        dt = K(d.value)
                    bound[p] = ("kwarg", tuple(splats), p, dt)
                elif p in defaults:
                    d = defaults[p]
                    if isinstance(d, ast.Constant):
                        bound[p] = K(d.value)
                    else:
                        r = self.eval(d, st, new)
                        s1, t = r[0]
                        st.objs.update(s1.objs)
                        bound[p] = t
                else:
                    bound[p] = ("missing", p)
        for p, t in bound.items():
            st.env[(new.id, p)] = t

    def call_function(self, func, selft, args, kwargs, st, frame, node,
                      yield_cb=None, lexical=None, gen=None):
        "Inlines a call.  Returns Outs with ret and exc."
        cls = frame.cls
        if selft is not None:
            cls = self.class_of(selft, st) or (func.cls and func.cls.qual)
            if selft[0] == "g" and selft[1] in self.prog.classes:
                cls = selft[1]
        elif func.cls is not None and func.parent is None:
            cls = func.cls.qual
        new = Frame(func, frame, cls, frame.depth + 1,
                    lexical=lexical)
        new.handlers = frame.handlers
        new.yield_cb = yield_cb
        st = st.copy()
        self.bind_args(func, selft, args, kwargs, st, frame, new)
        if gen is not None:
            st.env[(new.id, "<gen>")] = gen
        outs = self.exec_function(func, new, [st])
        keep = bool(func.nested) or any(
            isinstance(n, (ast.Lambda, ast.GeneratorExp))
            for n in walk_shallow(func.node))
        if not keep:
            def clean(s):
                for k in [k for k in s.env if k[0] == new.id]:
                    del s.env[k]
                return s
            outs.ret = self.merge_vals([(clean(s.copy()), v) for s, v in outs.ret])
            outs.exc = self.merge_vals([(clean(s.copy()), v) for s, v in outs.exc])
        return outs

    def construct(self, q, args, kwargs, st, frame, node):
        t = ("new", q, args, kwargs, next(self.uid))
        if self.spec.construct(self, st, frame, q, args, kwargs, node):
            init = self.prog.find_method(q, "__init__")
            if init is not None and self.active.count(init.qual) < 1 and \
                    frame.depth < self.spec.max_depth:
                self.emit(st, frame, "new", (t,), node)
                o = self.call_function(init, t, args, kwargs, st, frame, node)
                frame.raises.extend(o.exc)
                return [(s, t) for s, _ in o.ret]
        st = st.copy()
        self.emit(st, frame, "new", (t,), node)
        self.implicit(st, frame, "call", t, node)
        return [(st, t)]

    def opaque(self, f, args, kwargs, st, frame, node):
        t = ("call", f, args, kwargs)
        pre = st
        st = st.copy()
        self.emit(st, frame, "call", (f, args, kwargs), node)
        for name in self.spec.may_raise(self, st, frame, "call", t) or ():
            frame.raises.append((st, Exc(name, t, node.lineno,
                                         frame.func.qual, "call")))
        self.implicit(pre, frame, "call", t, node)
        return [(st, t)]

    def implicit(self, st, frame, what, term, node):
        "An operation inside a try body may reach its handlers."
        if what != "call":
            for name in self.spec.may_raise(self, st, frame, what, term) or ():
                frame.raises.append((st, Exc(name, term,
                                             getattr(node, "lineno", 0),
                                             frame.func.qual, what)))
        if not self.spec.implicit_raises:
            return
        for h in dict.fromkeys(frame.handlers):
            if not plausible(h, what, self.prog):
                continue
            frame.raises.append((st, Exc(h, ("p", "<exc>"),
                                         getattr(node, "lineno", 0),
                                         frame.func.qual, "implicit")))

    def emit(self, st, frame, kind, args, node):
        fn = frame.func.qual
        ev = Event(kind, args, getattr(node, "lineno", 0), fn)
        if self.spec.relevant(ev):
            if self.spec.snap:
                ev = Event(kind, args, getattr(node, "lineno", 0), fn,
                           frozenset(st.facts.items()))
            st.events = st.events + (ev,)

    # -------------------------------------------------------------- builtins ---
    def builtin(self, name, args, kwargs, st, frame, node):
        if name in ("hasattr",) and len(args) == 2 and is_const(args[1]):
            t = ("hasattr", args[0], args[1][2])
            return [(st, t)]
        if name == "getattr" and len(args) >= 2 and is_const(args[1]):
            loc = (args[0], "." + args[1][2])
            if loc in st.heap and st.heap[loc] != ABSENT:
                return [(st, st.heap[loc])]
            if len(args) == 2:
                return self.get_attr(args[0], args[1][2], st, frame, node)
            has = self.truth(("hasattr", args[0], args[1][2]), st)
            if has is True:
                return self.get_attr(args[0], args[1][2], st, frame, node)
            if has is False:
                return [(st, args[2])]
            return [(st, ("getattr", args[0], args[1][2], args[2]))]
        if name == "setattr" and len(args) == 3 and is_const(args[1]):
            return [(s, NONE) for s in self.set_attr(
                args[0], args[1][2], args[2], st, frame, node)]
        if name == "isinstance" and len(args) == 2:
            t = ("isinstance", args[0], args[1])
            b = self.truth(t, st)
            return [(st, K(b) if b is not None else t)]
        if name == "bool" and len(args) == 1:
            b = self.truth(args[0], st)
            return [(st, K(b) if b is not None else ("call", ("b", "bool"), args, ()))]
        if name == "dict" and not args:
            ents = tuple(("kv", K(k), v, ()) for k, v in kwargs if k != "**")
            ents += tuple(("splat", v, ()) for k, v in kwargs if k == "**")
            s, o = self.new_obj("dict", ents, st)
            for e in ents:
                if e[0] == "kv":
                    s.heap[(o, ("k", e[1]))] = e[2]
            return [(s, o)]
        if name == "dict" and len(args) == 1:
            ents = self.dict_entries(args[0], st) + tuple(
                ("kv", K(k), v, ()) for k, v in kwargs if k != "**") + tuple(
                    ("splat", v, ()) for k, v in kwargs if k == "**")
            s, o = self.new_obj("dict", ents, st)
            for e in ents:
                if e[0] == "kv" and is_const(e[1]):
                    s.heap[(o, ("k", e[1]))] = e[2]
            return [(s, o)]
        if name in ("list", "set", "tuple") and not args:
            s, o = self.new_obj(name, (), st) if name != "tuple" else (st, ("tuple", ()))
            return [(s, o)]
        if name in ("list", "tuple", "sorted") and len(args) >= 1 and \
                args[0][0] == "obj" and args[0][2] in st.objs and \
                all(e[0] in ("item", "splat") for e in st.objs[args[0][2]]):
            s, o = self.new_obj("list", st.objs[args[0][2]], st)
            return [(s, o)]
        if name == "tuple" and args and args[0][0] == "tuple":
            return [(st, args[0])]
        if name == "set" and len(args) == 1:
            if args[0][0] in ("obj", "tuple"):
                s, o = self.new_obj("set", self.splat(args[0], st), st)
                return [(s, o)]
            s, o = self.new_obj("set", (("splat", args[0], ()),), st)
            return [(s, o)]
        if name == "list" and len(args) == 1:
            if args[0][0] == "tuple":
                s, o = self.new_obj("list", self.splat(args[0], st), st)
                return [(s, o)]
            s, o = self.new_obj("list", (("splat", args[0], ()),), st)
            return [(s, o)]
        if name == "type" and len(args) == 1:
            c = self.class_of(args[0], st)
            if c in self.prog.classes:
                return [(st, ("g", c))]
            return [(st, ("classof", args[0]))]
        if name == "len" and len(args) == 1 and args[0][0] == "tuple" and not any(
                x[0] == "*" for x in args[0][1]):
            return [(st, K(len(args[0][1])))]
        if name in COMMON_PURE:
            t = ("call", ("b", name), args, kwargs)
            self.emit(st, frame, "call", (("b", name), args, kwargs), node)
            self.implicit(st, frame, "call", t, node)
            return [(st, t)]
        return None

    def dict_entries(self, t, st):
        if t[0] == "obj" and t[2] in st.objs:
            return st.objs[t[2]]
        return (("splat", t, ()),)

    def container_method(self, b, name, args, kwargs, st, frame, node):
        "Methods of locally created collections."
        if name == "get" and args:
            loc = (b, ("k", args[0]))
            if loc in st.heap:
                v = st.heap[loc]
                if v == ABSENT:
                    return [(st, args[1] if len(args) > 1 else NONE)]
                return [(st, v)]
            table = self.table(b, args[0], st)
            if table:
                hits, miss = self.lookup_table(table, args[0], st)
                return hits + [(s, args[1] if len(args) > 1 else NONE)
                               for s in miss]
        if b[0] != "obj" or b[2] not in st.objs:
            return None
        kind = b[1]
        if name in ("append", "add") and len(args) == 1:
            s = st.copy()
            s.objs[b[2]] = s.objs[b[2]] + (("item", args[0], s.loops),)
            self.emit(s, frame, "append", (b, args[0]), node)
            return [(s, NONE)]
        if name == "insert" and len(args) == 2:
            s = st.copy()
            s.objs[b[2]] = (("item", args[1], s.loops),) + s.objs[b[2]] \
                if args[0] == K(0) else s.objs[b[2]] + (("item", args[1], s.loops),)
            self.emit(s, frame, "append", (b, args[1]), node)
            return [(s, NONE)]
        if name == "extend" or (name == "update" and kind == "set"):
            s = st.copy()
            for a in args:
                s.objs[b[2]] = s.objs[b[2]] + self.splat(a, s)
            self.emit(s, frame, "extend", (b,) + args, node)
            return [(s, NONE)]
        if name == "update" and kind == "dict":
            s = st.copy()
            for a in args:
                ents = self.dict_entries(a, s)
                s.objs[b[2]] = s.objs[b[2]] + ents
                for e in ents:
                    if e[0] == "kv":
                        s.heap[(b, ("k", e[1]))] = e[2]
                    else:
                        for loc in [l for l in s.heap if l[0] == b
                                    and isinstance(l[1], tuple)]:
                            del s.heap[loc]
            for k, v in kwargs:
                if k == "**":
                    s.objs[b[2]] = s.objs[b[2]] + (("splat", v, s.loops),)
                    for loc in [l for l in s.heap if l[0] == b
                                and isinstance(l[1], tuple)]:
                        del s.heap[loc]
                else:
                    s.objs[b[2]] = s.objs[b[2]] + (("kv", K(k), v, s.loops),)
                    s.heap[(b, ("k", K(k)))] = v
            self.emit(s, frame, "extend", (b,) + args, node)
            return [(s, NONE)]
        if name == "setdefault" and kind == "dict" and args:
            d = args[1] if len(args) > 1 else NONE
            loc = (b, ("k", args[0]))
            if loc in st.heap and st.heap[loc] != ABSENT:
                s = st.copy()
                self.emit(s, frame, "setdefault", (b,) + args, node)
                return [(s, st.heap[loc])]
            s = st.copy()
            self.emit(s, frame, "setdefault", (b,) + args, node)
            has_splat = any(e[0] == "splat" for e in s.objs[b[2]])
            v = d if not has_splat else ("default", b, args[0], d)
            s.heap[loc] = v
            s.objs[b[2]] = s.objs[b[2]] + (("kv", args[0], v, s.loops),)
            return [(s, v)]
        if name == "pop" and kind == "list" and not args and \
                st.objs[b[2]] and st.objs[b[2]][-1][0] == "item" \
                and not st.objs[b[2]][-1][-1]:
            s = st.copy()
            ents = s.objs[b[2]]
            s.objs[b[2]] = ents[:-1]
            return [(s, ents[-1][1])]
        if name == "copy":
            s, o = self.new_obj(kind, st.objs[b[2]], st)
            for loc in [l for l in s.heap if l[0] == b]:
                s.heap[(o, loc[1])] = s.heap[loc]
            return [(s, o)]
        return None


def plausible(handler, what, prog):
    "Whether an opaque operation of this sort could raise this exception type."
    h = handler.rpartition(".")[2]
    if h in ("Exception", "BaseException"):
        return True
    if what == "attr":
        return h in ("AttributeError",)
    if what == "sub":
        return h in ("KeyError", "IndexError", "TypeError", "LookupError")
    if what in ("bin", "cmp"):
        return h in ("TypeError", "ValueError", "DimensionalityError",
                     "ZeroDivisionError", "AttributeError", "OverflowError",
                     "FloatingPointError")
    return True


def merge_facts(f1, f2):
    "What both sides know; equalities with constants become membership."
    out = {f: b for f, b in f1.items() if f2.get(f, None) is b}
    for f, b in f1.items():
        if not b or f in out:
            continue
        x, items = one_of(f)
        if items is None:
            continue
        for g, c in f2.items():
            if not c:
                continue
            y, more = one_of(g)
            if more is not None and y == x:
                both = items + tuple(i for i in more if i not in items)
                if len(both) <= 8:
                    out[("in", x, ("tuple", both))] = True
    return out


def one_of(f):
    "(x, items) when the fact says that x is one of these constants."
    if f[0] == "cmp" and f[1] == "==":
        if is_tag(f[3]):
            return f[2], (f[3],)
        if is_tag(f[2]):
            return f[3], (f[2],)
    elif f[0] == "is" and is_tag(f[2]) and f[2] != NONE:
        return f[1], (f[2],)
    elif f[0] == "in" and f[2][0] == "tuple" and f[2][1] and all(
            is_tag(i) for i in f[2][1]):
        return f[1], f[2][1]
    return None, None


def negate(t):
    if t[0] == "not":
        return t[1]
    return ("not", t)


def join(a, b):
    xs = []
    for t in (a, b):
        for x in (t[1] if t[0] == "phi" else (t,)):
            if x not in xs:
                xs.append(x)
    return ("phi", tuple(sorted(xs, key=repr)))


def definitely_nonempty(it, st):
    if it[0] == "tuple":
        return bool(it[1])
    if it[0] == "obj" and it[2] in st.objs:
        return any(e[0] == "item" and not e[2] for e in st.objs[it[2]])
    return False


def _as_load(node):
    import copy
    n = copy.copy(node)
    n.ctx = ast.Load()
    return n


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
       ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@",
       ast.BitXor: "^", ast.BitAnd: "&", ast.BitOr: "|", ast.LShift: "<<",
       ast.RShift: ">>"}
FOLD = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
        "*": lambda a, b: a * b if not (isinstance(a, str) or isinstance(b, str)) else a * b,
        "/": lambda a, b: a / b, "//": lambda a, b: a // b,
        "%": lambda a, b: a % b, "**": lambda a, b: a ** b if abs(b) < 64 else 1/0}


def all_events(outs, kinds=None):
    "Every event of every outcome, loops opened."
    seen = set()
    for s in outcome_states(outs):
        for ev in flat_events(s.events):
            k = id(ev)
            if ev in seen:
                continue
            seen.add(ev)
            if kinds is None or ev.kind in kinds:
                yield ev


def flat_events(events):
    for ev in events:
        yield ev
        if ev.kind == "loop":
            for p in ev.args[2]:
                yield from flat_events(p[1])


def outcome_states(outs):
    for s in outs.next:
        yield s
    for s, _ in outs.ret:
        yield s
    for s, _ in outs.exc:
        yield s
