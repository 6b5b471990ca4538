"""C04: typestate of the substitutions dictionary.  Every function that sweeps
(and every other non-constructor of the package that writes into a
`.substitutions` it was handed) is interpreted with the dictionary's former
content symbolic: reading an unwritten key gives "the original value of that
key", membership splits into "was there" and "was not", and each project call
may return or raise.  On every exit, normal or exceptional, each key written
must be back: holding its original value if it was there, absent if it was
not.  Loops are covered by a generic iteration that must leave nothing
behind."""
import ast

from ..flow import (ABSENT, K, NONE, Engine, Spec, is_new)
from ..model import AnalysisBroken, walk_shallow
from .common import shown

TECHNIQUE = "typestate of the model's substitutions over all paths, including exceptional exits"
ASSUMPTIONS = ["a failing write to a KeyDict leaves it as it was",
               "print, time and builtin conversions do not raise",
               "a solve itself does not write substitutions (property C03)"]

ENTRY = ("gpkit.constraints.model.Model.sweep",
         "gpkit.constraints.model.Model.autosweep",
         "gpkit.tools.autosweep.autosweep_1d",
         "gpkit.interactive.plot_sweep.plot_1dsweepgrid",
         "gpkit.constraints.prog_factories.run_sweep",
         "gpkit.constraints.prog_factories.solvify.<locals>.solvefn",
         "gpkit.constraints.prog_factories.progify.<locals>.programfn")
QUIET = {"print", "len", "list", "dict", "tuple", "set", "isinstance", "zip",
         "hasattr", "getattr", "enumerate", "range", "float", "str", "repr",
         "bool", "time.time", "sorted", "max", "min"}
# setting substitutions is what these do
SETTERS = ("gpkit.interactive.widgets.",)


def is_subs(b):
    return b[0] == "attr" and b[2] == "substitutions"


class SubsSpec(Spec):
    loop_mode = "summary"
    implicit_raises = False
    inlined = ("gpkit.tools.autosweep.recurse_splits",
               "gpkit.tools.autosweep.autosweep_1d")

    def relevant(self, ev):
        return ev.kind == "touched"

    def now(self, term):
        t = term[1] if term[0] == "not" else term
        return t[0] == "in" and is_subs(t[2])

    def may_raise(self, eng, st, frame, what, term):
        if what == "call":
            f = term[1]
            if f[0] in ("b", "g") and f[1] in QUIET:
                return ()
            if f[0] == "attr" and (is_subs(f[1]) or f[2] in (
                    "append", "setdefault", "items", "keys", "values", "get")):
                return ()
            return ("BASE",)
        if what == "sub":
            return ("KeyError",)
        return ()

    def truth(self, eng, st, t):
        # an original value may be zero, but not None
        if t[0] == "is" and t[1][0] == "orig" and t[2] == NONE:
            return False
        if t[0] == "orig":
            return None
        return None

    def present(self, eng, st, b, k):
        "States split on whether k was in the dictionary: [(st, bool)]."
        t = ("in", k, b)
        tr, fa = eng.split(t, st)
        return [(s, True) for s in tr] + [(s, False) for s in fa]

    def read(self, eng, st, frame, b, k, default, node):
        loc = (b, ("k", k))
        if loc in st.heap:
            v = st.heap[loc]
            if v[0] in ("loopout", "loopheap", "phi", "old"):
                return [(st, v)]
            if v != ABSENT:
                return [(st, v)]
            if default is None:
                self.key_error(eng, st, frame, node)
                return []
            return [(st, default)]
        out = []
        for s, there in self.present(eng, st, b, k):
            if there:
                out.append((s, ("orig", b, k)))
            elif default is not None:
                out.append((s, default))
            else:
                self.key_error(eng, s, frame, node)
        return out

    def key_error(self, eng, st, frame, node):
        from ..flow import Exc
        frame.raises.append((st, Exc("KeyError", ("p", "<exc>"),
                                     getattr(node, "lineno", 0),
                                     frame.func.qual, "read")))

    def on_sub(self, eng, st, frame, b, k):
        if is_subs(b):
            return self.read(eng, st, frame, b, k, None, None)
        return None

    def on_write(self, eng, st, frame, b, key, value, node):
        if value == ABSENT and is_subs(b):
            loc = (b, ("k", key))
            cur = st.heap.get(loc)
            if cur is None:
                if st.facts.get(("in", key, b)) is True:
                    return ()
                return ("KeyError",)
            if cur == ABSENT:
                return ("KeyError",)
        return ()

    def after_write(self, eng, st, frame, b, loc):
        if loc == ".substitutions":
            if st.heap.get((b, loc)) == ("attr", b, "substitutions"):
                del st.heap[(b, loc)]
            return
        if not is_subs(b):
            return
        v = st.heap.get((b, loc))
        if v == ("orig", b, loc[1]):
            del st.heap[(b, loc)]
            self.was(st, b, loc[1], True)
        elif v == ABSENT:
            f = ("in", loc[1], b)
            # kill() has dropped a fact about the dictionary's own content;
            # what was there originally is remembered under "was"
            if st.facts.get(("was",) + f[1:]) is False:
                del st.heap[(b, loc)]

    def was(self, st, b, k, there):
        st.facts[("was", k, b)] = there

    def on_call(self, eng, st, frame, f, args, kwargs, node):
        if f[0] in ("b", "g") and f[1].rpartition(".")[2] in (
                "dict", "KeyDict", "copy", "deepcopy") and len(args) == 1 \
                and is_subs(args[0]) and not kwargs:
            return [(st, ("snapshot", args[0], self.dirty(st, args[0])))]
        if f[0] != "attr" or not is_subs(f[1]):
            return None
        b, m = f[1], f[2]
        if m == "copy" and not args:
            return [(st, ("snapshot", b, self.dirty(st, b)))]
        if m == "get" and args:
            return self.read(eng, st, frame, b, args[0],
                             args[1] if len(args) > 1 else NONE, node)
        if m == "setdefault" and args:
            out = []
            loc = (b, ("k", args[0]))
            if loc in st.heap and st.heap[loc] != ABSENT:
                return [(st, st.heap[loc])]
            for s, v in self.read(eng, st, frame, b, args[0], ABSENT, node):
                if v != ABSENT:
                    out.append((s, v))
                    continue
                d = args[1] if len(args) > 1 else NONE
                out.extend((s2, d) for s2 in eng.set_item(
                    b, args[0], d, s, frame, node))
            return out
        if m == "pop" and args:
            out = []
            for s, v in self.read(eng, st, frame, b, args[0],
                                  args[1] if len(args) > 1 else None, node):
                if s.heap.get((b, ("k", args[0]))) == ABSENT or (
                        (b, ("k", args[0])) not in s.heap and
                        s.facts.get(("in", args[0], b)) is False):
                    out.append((s, v))
                    continue
                out.extend((s2, v) for s2 in eng.del_item(
                    b, args[0], s, frame, node))
            return out
        if m == "clear":
            s = st.copy()
            s.heap[(b, "*")] = ("cleared",)
            return [(s, NONE)]
        if m == "update":
            states = [st]
            for a in args:
                if a[0] == "snapshot" and a[1] == b and not a[2]:
                    states = [s2 for s in states
                              for s2 in self.put_back(eng, s, b)]
                    continue
                ents = eng.dict_entries(a, st)
                for e in ents:
                    nxt = []
                    for s in states:
                        if e[0] == "kv":
                            nxt.extend(eng.set_item(b, e[1], e[2], s, frame,
                                                    node))
                        elif e[0] == "splat" and e[1] == b:
                            nxt.append(s)
                        else:
                            s = s.copy()
                            s.heap[(b, ("k", ("keys", e[1])))] = e[1]
                            nxt.append(s)
                    states = nxt
            for k, v in kwargs:
                states = [s2 for s in states for s2 in eng.set_item(
                    b, K(k), v, s, frame, node)]
            return [(s, NONE) for s in states]
        return None

    def dirty(self, st, b):
        return any(l[0] == b for l in st.heap)

    def put_back(self, eng, st, b):
        states = [st.copy()]
        if (b, "*") in st.heap:
            for loc in [l for l in states[0].heap if l[0] == b]:
                del states[0].heap[loc]
            return states
        for loc in [l for l in st.heap if l[0] == b]:
            nxt = []
            k = loc[1][1] if isinstance(loc[1], tuple) else None
            for s in states:
                was = s.facts.get(("was", k, b))
                if was is True:
                    del s.heap[loc]
                    nxt.append(s)
                elif was is False:
                    nxt.append(s)
                else:
                    s2 = s.copy()
                    del s2.heap[loc]
                    nxt += [s2, s]
            states = nxt
        return states

    def left(self, st):
        "Locations of a substitutions dictionary that differ from entry."
        out = []
        for (b, loc), v in st.heap.items():
            if loc == ".substitutions" and b[0] != "new":
                out.append(("%s.substitutions" % shown(b), v))
            if not is_subs(b) or b[1][0] == "new":
                continue
            k = loc[1] if isinstance(loc, tuple) else None
            if v == ABSENT and st.facts.get(("was", k, b)) is False:
                continue
            out.append(("%s[%s]" % (shown(b), shown(k) if k else "*"), v))
        return out


class SubsEngine(Engine):
    "Remembers what was in the dictionary before anything was written."

    def learn(self, st, v, b):
        super().learn(st, v, b)
        if v[0] == "in" and is_subs(v[2]):
            loc = (v[2], ("k", v[1]))
            if loc not in st.heap and (v[2], "*") not in st.heap:
                st.facts[("was", v[1], v[2])] = b
            elif not b and st.heap.get(loc) == ABSENT:
                self.spec.after_write(self, st, None, v[2], loc[1])

    def truth_in(self, v, st):
        if is_subs(v[2]) and (v[2], ("k", v[1])) not in st.heap:
            w = st.facts.get(("was", v[1], v[2]))
            if w is not None:
                return w
        return super().truth_in(v, st)


def writes_substitutions(prog):
    for f in prog.all_functions():
        if f.name in ("__init__", "__new__", "__init_subclass__"):
            continue
        for n in walk_shallow(f.node):
            hit = None
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                hit = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in ("update", "pop", "clear",
                                        "setdefault", "popitem",
                                        "__setitem__", "__delitem__"):
                hit = n.func.value
            elif isinstance(n, ast.Attribute) and n.attr == "substitutions" \
                    and isinstance(n.ctx, (ast.Store, ast.Del)):
                hit = n
            elif isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Attribute) and \
                    n.value.attr == "substitutions":
                hit = n.value
            if isinstance(hit, ast.Attribute) and hit.attr == "substitutions":
                yield f
                break


def ctor_helpers(prog):
    "Functions only used while an object is being constructed."
    from .common import callers_closure
    inits = [f.qual for f in prog.all_functions()
             if f.name in ("__init__", "__new__")]
    return callers_closure(prog, inits)


def run(chk):
    prog = chk.prog
    todo = {}
    for q in ENTRY:
        if ".<locals>." in q:
            f = prog.functions.get(q)
            if f is None:
                continue
        elif ".model." in q:
            f = prog.method(q.rpartition(".")[0], q.rpartition(".")[2])
        else:
            f = prog.func(q)
        todo[f.qual] = f
    ctor = ctor_helpers(prog)
    found = 0
    for f in writes_substitutions(prog):
        found += 1
        if f.qual in ctor or f.qual.startswith(SETTERS):
            continue
        todo[f.qual] = f
    inlined = set()
    for f in sorted(todo.values(), key=is_new):
        if is_new(f) and f.qual in inlined:
            continue    # a helper: judged inside its callers
        inlined |= judge(chk, prog, f) or set()
    if found < 3:
        raise AnalysisBroken("found only %i functions that write"
                             " substitutions" % found)
    chk.need("restored-on-return", 5)
    chk.need("restored-on-exception", 3)


def judge(chk, prog, f):
    spec = SubsSpec(prog)
    spec.max_states = 1500 if chk.thorough else 600
    eng = SubsEngine(prog, spec)
    if f.name == "recurse_splits" or f.qual in spec.inlined and \
            f.qual not in ENTRY:
        return      # judged inside its caller, which restores
    outs = eng.run(f)
    chk.analysed(eng.stats["functions"])
    seen = eng.stats["functions"] - {f.qual}
    bad_ret, bad_exc, line = None, None, None
    for st, _ in outs.ret:
        for what, v in spec.left(st):
            bad_ret = "%s is left as %s when the function returns" % (
                what, shown(v, 80) if v != ABSENT else "absent")
    for st, e in outs.exc:
        for what, v in spec.left(st):
            bad_exc = ("%s is left as %s when an exception raised at line %s"
                       " leaves the function" % (
                           what, shown(v, 80) if v != ABSENT else "absent",
                           e.line))
            line = e.line
    chk.ob("restored-on-return", f, "substitutions at return",
           bad_ret is None, bad_ret)
    if outs.exc:
        chk.ob("restored-on-exception", f, "substitutions at exceptional exit",
               bad_exc is None, bad_exc, line=line)
    return seen
