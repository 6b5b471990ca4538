"""C21: must-write analysis of the entries of a solution.  The dictionary each
producer packs into a SolutionArray must hold, on every path that returns it,
the cost, free variables, constants, variables (made of both) and
sensitivities to constraints (one for each of them), models, cost and
variables; the functions that hand a result on must hand on that one; sweeps
must write the swept variables and move each of them out of the constants on
exactly the paths where it was swept; the copying of results into lists and
arrays must write every key on every path; what a solver's output is asked for
must be what every back end returns; entries are deleted only where they are
put back; a result's own entries are the same on every path; and every
constant key that a table, export, comparison or post-processing reads must be
one of the entries always written, or be established on that path."""
import ast

from ..flow import K, contains, flat_events, is_const, strip, subterms
from ..model import AnalysisBroken
from . import each
from .allrun import everything
from .c11 import paths
from .c18 import sequences
from .c23 import flat
from .common import backends, judged, shown

TECHNIQUE = "must-write dataflow of dictionary entries and guarded reads"
ASSUMPTIONS = ["solver functions given by the user return what the back ends"
               " here return",
               "a pickled solution was written by this version"]
REQUIRED = ("cost", "freevariables", "constants", "variables",
            "sensitivities")
SENSS = ("constraints", "models", "cost", "variables")
SELF = ("p", "self")
SA = "gpkit.solution_array.SolutionArray"
SOLUTION_NAMES = ("result", "solution", "sol", "solarray", "solved")


def run(chk):
    produced = producers(chk)
    handed_on(chk, produced)
    sweeps(chk)
    copied(chk)
    solver_outputs(chk)
    optional = deletions(chk)
    uniform(chk)
    readers(chk, optional)
    titles(chk)
    chk.need("entries-written", 1)
    chk.need("read-is-written", 8)


def _why(facts):
    return each.why(dict(facts))


# --- what a path leaves in a dictionary

def written(st, obj):
    "{constant key: value} of a dictionary made on a path, in order."
    out = {}
    if obj[0] == "obj" and obj[2] in st.objs:
        for e in st.objs[obj[2]]:
            if e[0] == "kv" and is_const(e[1]) and not e[-1]:
                out[e[1][2]] = e[2]
            elif e[0] == "splat" and e[1][0] == "obj":
                out.update(written(st, e[1]))
    if obj[0] == "call" and obj[1] == ("b", "dict") and obj[2] and \
            obj[2][0][0] == "obj":
        out.update(written(st, obj[2][0]))
    if obj[0] == "call" and obj[1] == ("b", "dict"):
        out.update((k, v) for k, v in obj[3] if k != "**")
    for e in st.events:
        if not e.args:
            continue
        if e.kind in ("setitem", "setdefault") and e.args[0] == obj and \
                is_const(e.args[1]):
            if e.kind == "setitem" or e.args[1][2] not in out:
                out[e.args[1][2]] = e.args[2]
        elif e.kind == "delitem" and e.args[0] == obj and \
                is_const(e.args[1]):
            out.pop(e.args[1][2], None)
        elif e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][1] == obj:
            name, args = e.args[0][2], e.args[1]
            if name == "pop" and args and is_const(args[0]):
                out.pop(args[0][2], None)
            elif name == "update":
                for a in args:
                    if a[0] == "obj":
                        out.update(written(st, a))
                out.update((k, v) for k, v in e.args[2] if k != "**")
            elif name == "clear":
                out.clear()
            elif name == "setdefault" and len(args) > 1 and \
                    is_const(args[0]):
                out.setdefault(args[0][2], args[1])
    return out


def packed(prog):
    "Functions in which a dictionary is packed into a SolutionArray."
    out = []
    for f in prog.all_functions():
        if ".tests." in f.qual or f.cls is not None and f.cls.qual == SA:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and n.args and isinstance(
                    n.func, (ast.Name, ast.Attribute)):
                name = n.func.id if isinstance(n.func, ast.Name) \
                    else n.func.attr
                if name == "SolutionArray":
                    out.append(f)
                    break
    return out


def chk_paths(chk, f, **kw):
    try:
        return paths(chk, f, **kw)
    except AnalysisBroken as e:
        chk.notes.append("undecided: %s (%s)" % (f.qual, e))
        return None


def producers(chk):
    prog, out = chk.prog, []
    found = [f for f in judged(prog, packed(prog))]
    for f in sorted(found, key=lambda f: f.qual):
        outs = chk_paths(chk, f)
        if outs is None:
            continue
        missing, contents, each_con, n = {}, None, None, 0
        for st, v in outs.ret:
            made = [t for t in [v] + [e.args[0] for e in st.events
                                      if e.kind == "new"]
                    if t[0] == "new" and t[1] == SA and t[2]]
            for t in made[:1]:
                n += 1
                top = written(st, t[2][0])
                opaque = top == {} and t[2][0][0] not in ("obj",)
                if opaque:
                    chk.notes.append("undecided: a solution made of %s"
                                     % shown(t[2][0], 80))
                    continue
                for k in REQUIRED:
                    if k not in top:
                        missing.setdefault(k, st)
                sens = top.get("sensitivities")
                if sens is None:
                    continue
                inner = written(st, sens)
                if sens[0] not in ("obj",) and not inner:
                    chk.notes.append("undecided: sensitivities %s"
                                     % shown(sens, 80))
                    continue
                for k in SENSS:
                    if k not in inner:
                        missing.setdefault("sensitivities/" + k, st)
                contents = contents or content(st, top)
                each_con = each_con or constraints(st, inner)
        if not n:
            continue
        out.append(f)
        for k in list(REQUIRED) + ["sensitivities/" + s for s in SENSS]:
            st = missing.get(k)
            chk.ob("entries-written", f, k, st is None, st and
                   "a path returns a solution without %r%s" % (
                       k, _why(st.facts)), f.node.lineno)
        chk.ob("variables-complete", f, "variables", contents is None,
               contents, f.node.lineno)
        chk.ob("constraints-complete", f, "sensitivities of constraints",
               each_con is None, each_con, f.node.lineno)
    return out


def fed(st, t):
    "Terms a dictionary is filled from, by constructor, update or copy."
    out, todo = [], [t]
    while todo:
        t = strip(todo.pop())
        if t in out:
            continue
        out.append(t)
        out.extend(x for x in subterms(t) if x not in out)
        if t[0] == "obj":
            for e in st.objs.get(t[2], ()):
                for x in e[1:-1]:
                    if isinstance(x, tuple):
                        todo.append(x)
                for l in e[-1]:
                    todo.append(l[0])
        for e in flat(st):
            if e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][2] == "update" and strip(e.args[0][1]) == t:
                todo.extend(e.args[1])
            elif e.kind == "setitem" and strip(e.args[0]) == t:
                todo.extend(e.args[1:3])
    return out


def content(st, top):
    if not all(k in top for k in REQUIRED):
        return None
    free, const, both = (fed(st, top[k]) for k in
                         ("freevariables", "constants", "variables"))

    def attr(name, terms):
        return any(t[0] == "attr" and t[2] == name for t in terms)
    terms = {k: strip(top[k]) for k in ("freevariables", "constants",
                                        "variables")}
    for k in ("freevariables", "constants"):
        if terms[k] == terms["variables"]:
            return "%s and variables are the same dictionary" % k
    for k, t in sorted(terms.items()):
        if t[0] == "call" and t[1] == ("b", "dict") or \
                t[0] == "obj" and t[1] == "dict":
            return "%s cannot be read by name" % k
    if attr("varlocs", free) and not attr("varlocs", both):
        return "the free variables are not among the variables"
    if attr("substitutions", const) and not attr("substitutions", both):
        return "the constants are not among the variables"
    if attr("substitutions", free) and not attr("varlocs", free):
        return "the free variables are made of the constants"
    if not attr("substitutions", const) and attr("varlocs", const):
        return "the constants are made of the free variables"
    if any(contains(t, lambda x: x[0] == "sub" and x[2][0] == "slice"
                    and contains(x[1], lambda y: y[0] == "attr" and y[2] in
                                 ("varlocs", "substitutions")))
           for t in free + const):
        return "some variables are left out"
    return None


def constraints(st, inner):
    "Every constraint's sensitivity is stored."
    con = inner.get("constraints")
    if con is None or con[0] != "obj":
        return None
    for l in [e for e in st.events if e.kind == "loop"]:
        if l.args[0][0] == "while" or not contains(
                l.args[0], lambda t: t[0] == "attr" and t[2] == "hmaps"):
            continue
        for kind, evs, facts in [p[:3] for p in l.args[2]]:
            if kind not in ("next", "continue"):
                continue
            if any(e.kind in ("setitem", "aug") and strip(e.args[0]) ==
                   strip(con) for e in flat_events(evs)):
                continue
            if any(e.kind == "call" and e.args[0][0] == "attr" and
                   e.args[0][2] in ("update", "setdefault", "__setitem__")
                   and strip(e.args[0][1]) == strip(con)
                   for e in flat_events(evs)):
                continue
            return "a constraint's sensitivity is not stored%s" % \
                _why(facts)
    return None


# --- the result is handed on

def handed_on(chk, produced):
    """Functions between the packing and the user: where a result is asked
    for, the one packed is returned."""
    prog = chk.prog
    names = {f.name for f in produced}
    done = set(names)
    for step in range(3):
        callers = []
        for f in prog.all_functions():
            if ".tests." in f.qual or f.name in done:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in names:
                    callers.append(f)
                    break
        new = set()
        for f in sorted(judged(prog, callers), key=lambda f: f.qual):
            if f.name in done:
                continue
            got = hands_on(chk, f, names)
            if got:
                new.add(f.name)
        done |= new
        names = {n for n in new if n.startswith(("generate", "_generate"))}
        if not names:
            break


def hands_on(chk, f, names):
    outs = chk_paths(chk, f)
    if outs is None:
        return False

    def made(t):
        return t[0] == "call" and t[1][0] == "attr" and t[1][2] in names
    bad, n, line = None, 0, f.node.lineno
    for st, v in outs.ret:
        calls = [e for e in flat(st) if e.kind == "call" and
                 e.args[0][0] == "attr" and e.args[0][2] in names]
        if contains(v, made):
            n += 1
            continue
        if v[0] == "attr" or v[0] == "obj" or v[0] == "loopout":
            n += 1
            continue        # a stored one
        if v == K(None) and calls and f.name not in (
                "__init__", "process_result"):
            n += 1
            bad, line = "a path packs a result and returns nothing%s" % \
                _why(st.facts), calls[-1].line
        elif st.facts.get(("p", "gen_result")) is True and not (
                v[0] == "call" and v[1][0] == "attr" and
                v[1][2] == "debug"):
            bad = "a path that was asked for a result returns %s%s" % (
                shown(v, 60), _why(st.facts))
    if n or bad:
        chk.ob("result-returned", f, "result", bad is None, bad, line)
    return n > 0


# --- sweeps

def sweepers(prog):
    "Functions that store the swept variables of a solution."
    out = []
    for f in prog.all_functions():
        if ".tests." in f.qual or f.cls is not None and f.cls.qual == SA:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Constant) and n.value == "sweepvariables":
                out.append(f)
                break
    return out


def sweep_runner(prog):
    f = prog.functions.get("gpkit.constraints.prog_factories.run_sweep")
    if f is not None:
        return [f]
    return [f for f in judged(prog, sweepers(prog))]


def sweeps(chk):
    prog = chk.prog
    for f in sweep_runner(prog):
        outs = chk_paths(chk, f)
        if outs is None:
            continue
        bad = line = None
        moved, n = None, 0
        kept = None
        for st, v in outs.ret:
            n += 1
            evs = list(st.events)
            sets = [e for e in evs if e.kind == "setitem" and
                    e.args[1] == K("sweepvariables")]
            ups = [e for e in evs if e.kind == "call" and
                   e.args[0][0] == "attr" and e.args[0][2] == "update" and
                   any("sweepvariables" in (written(st, a) if a[0] == "obj"
                                            else {}) for a in e.args[1])]
            if not sets and not ups:
                bad = "a path ends a sweep without its swept variables%s" % \
                    _why(st.facts)
                continue
            if not sets:
                chk.notes.append("undecided: swept variables are updated")
                continue
            base, value = sets[-1].args[0], strip(sets[-1].args[2])
            line = sets[-1].line
            moved = moved or moves(st, base, value, chk)
            kept = kept or gathers(st)
        if n:
            chk.ob("sweep-written", f, "sweepvariables", bad is None, bad,
                   f.node.lineno)
            chk.ob("sweep-moved", f, "swept constants", moved is None, moved,
                   line)
            chk.ob("sweep-gathered", f, "results", kept is None, kept,
                   f.node.lineno)
    solvers(chk)


def swept_fact(facts):
    """Whether a path's key is among the swept variables, as far as the path
    has established (None when it has not)."""
    got = None
    for t, truth in dict(facts).items():
        if t[0] == "in" and contains(t[2], lambda x: x == ("p", "sweep")):
            got = truth
        elif t[0] == "not" and t[1][0] == "in" and contains(
                t[1][2], lambda x: x == ("p", "sweep")):
            got = not truth
    return got


def touches(evs, pred, kinds):
    for e in flat_events(evs):
        if e.kind in kinds and pred(strip(e.args[0])):
            return e
        if e.kind == "call" and e.args[0][0] == "attr" and \
                pred(strip(e.args[0][1])) and (
                    e.args[0][2] in ("pop", "__delitem__")
                    and "delitem" in kinds or
                    e.args[0][2] in ("__setitem__", "update", "setdefault")
                    and "setitem" in kinds):
            return e
    return None


def moves(st, base, value, chk):
    def store(t):
        return t == value or t[0] == "sub" and t[2] == K("sweepvariables")

    def constants(t):
        return t[0] == "sub" and t[2] == K("constants")
    found = False
    stored_whole = not (value[0] == "new" and not value[2]) and \
        value[0] in ("new", "call", "obj")
    for l in each.all_loops(st.events):
        for kind, evs, facts in [p[:3] for p in l.args[2]]:
            if kind not in ("next", "continue", "break"):
                continue
            s = touches(evs, store, ("setitem",))
            d = touches(evs, constants, ("delitem",))
            got = swept_fact(facts)
            over = contains(l.args[0], lambda t: t == ("p", "sweep")) and \
                not contains(l.args[0], constants)
            if s or d or got is not None:
                found = True
            if got is True or over and (s or d):
                if not s and not stored_whole:
                    return "a swept variable is not among the swept" \
                        " variables of the solution%s" % _why(facts)
                if not d and not deleted_elsewhere(st, constants, l):
                    return "a swept variable stays among the constants%s" \
                        % _why(facts)
            elif got is False and d:
                return "a constant that was not swept is taken out%s" % \
                    _why(facts)
            elif got is False and s:
                return "a constant that was not swept is among the swept" \
                    " variables%s" % _why(facts)
            if kind == "break":
                return "the remaining constants are not looked at%s" % \
                    _why(facts)
    if not found:
        chk.notes.append("undecided: how swept variables are moved")
    return None


def deleted_elsewhere(st, constants, loop):
    return any(l is not loop and any(
        touches(p[1], constants, ("delitem",)) for p in l.args[2])
        for l in each.all_loops(st.events))


def gathers(st):
    "Every solve of a sweep that succeeded is part of its solution."
    for l in each.all_loops(st.events):
        for kind, evs, facts in [p[:3] for p in l.args[2]]:
            if kind not in ("next", "continue"):
                continue
            evs = list(flat_events(evs))
            solved = [e for e in evs if e.kind == "call" and contains(
                e.args[0], lambda t: t[0] == "sub" and t[2] == K(1) and
                contains(t[1], lambda x: x[0] == "call" and
                         x[1] == ("p", "genfunction")))]
            if not solved or any(e.kind in ("handler", "swallowed")
                                 for e in evs):
                continue
            if not any(e.kind in ("append", "call") and e.args and (
                    e.kind == "append" and e.args[0] == ("p", "solution") or
                    e.kind == "call" and e.args[0] ==
                    ("attr", ("p", "solution"), "append")) for e in evs):
                return "a solve's result is not made part of the sweep's" \
                    " solution%s" % _why(facts)
    return None


def solvers(chk):
    "The function that solves or sweeps packs and returns the solution."
    prog = chk.prog
    f = prog.functions.get(
        "gpkit.constraints.prog_factories.solvify.<locals>.solvefn")
    if f is None:
        return
    outs = chk_paths(chk, f)
    if outs is None:
        return
    bad, n = None, 0
    for st, v in outs.ret:
        if v[0] != "new" or v[1] != SA:
            if v == K(None):
                bad = "a path returns nothing%s" % _why(st.facts)
            continue
        n += 1
        seq, order = list(flat(st)), []
        for e in seq:
            if e.kind in ("append", "call") and e.args:
                on = e.args[0] if e.kind == "append" else (
                    e.args[0][1] if e.args[0][0] == "attr" else None)
                name = "append" if e.kind == "append" else (
                    e.args[0][2] if e.args[0][0] == "attr" else None)
                if on == v and name in ("append", "to_arrays"):
                    order.append(name)
                elif e.kind == "call" and e.args[0][0] == "g" and any(
                        a == v for a in e.args[1]):
                    order.append("append")
                elif e.kind == "call" and e.args[0][0] == "g" and any(
                        a == v for _, a in e.args[2]):
                    order.append("append")
        if "append" not in order:
            bad = "a path returns a solution no result was added to%s" % \
                _why(st.facts)
        elif "to_arrays" not in order:
            bad = "a path returns a solution still made of lists%s" % \
                _why(st.facts)
        elif order.index("to_arrays") < order.index("append"):
            bad = "a result is added after the solution was made of arrays"
    if n or bad:
        chk.ob("solution-packed", f, "solution", bad is None, bad,
               f.node.lineno)


# --- lists and arrays

def copied(chk):
    "The copies that results go through write every key on every path."
    prog = chk.prog
    mod = "gpkit.small_classes."
    fs = [prog.functions.get(mod + n) for n in
          ("_enlist_dict", "_append_dict", "_index_dict", "_enray")]
    for f in [f for f in fs if f is not None]:
        outs = chk_paths(chk, f)
        if outs is None:
            continue
        params = list(f.all_params())
        src, dest = ("p", params[-2]), ("p", params[-1])
        bad, n, line = None, 0, f.node.lineno
        for st, v in outs.ret:
            if strip(v) != dest and v == K(None):
                bad = "the copy is not returned"
            for l in [e for e in st.events if e.kind == "loop"]:
                if l.args[0][0] in ("comp", "while") or not contains(
                        l.args[0], lambda t: t == src):
                    continue
                if contains(l.args[0], lambda t: t[0] == "slice"):
                    bad, line = "not every key is looked at", l.line
                for kind, evs, facts in [p[:3] for p in l.args[2]]:
                    if kind == "break":
                        bad, line = "the keys left are not copied%s" % \
                            _why(facts), l.line
                    if kind not in ("next", "continue"):
                        continue
                    n += 1
                    if not stored(evs, dest):
                        bad, line = "an entry is not copied%s" % \
                            _why(facts), l.line
        if n or bad:
            chk.ob("copies-every-key", f, f.name, bad is None, bad, line)
    # appending hands the whole result on
    for cls, q in ((None, "gpkit.small_classes.DictOfLists.append"),
                   (None, SA + ".append")):
        f = prog.functions.get(q)
        outs = f and chk_paths(chk, f)
        if not outs:
            continue
        bad = None
        p = ("p", [x for x in f.all_params() if x != "self"][0])
        for st, v in outs.ret:
            if not any(e.kind in ("call", "append") and any(
                    whole_of(st, a, p) for a in args_of(e))
                       for e in flat(st)):
                bad = "a path does not add the result%s" % _why(st.facts)
        chk.ob("appends-result", f, "append", bad is None, bad,
               f.node.lineno)
    f = prog.functions.get("gpkit.small_classes.DictOfLists.to_arrays")
    if f is not None:
        outs = chk_paths(chk, f)
        if outs:
            bad = None
            for st, v in outs.ret:
                if not any(e.kind == "call" and e.args[0][0] == "g" and
                           SELF in e.args[1] or e.kind == "loop"
                           for e in st.events):
                    bad = "a path leaves the lists as they are"
            chk.ob("appends-result", f, "to_arrays", bad is None, bad,
                   f.node.lineno)


def args_of(e):
    if e.kind == "append":
        return e.args[1:2]
    f, args, kwargs = e.args[:3]
    if f in (("b", "dict"), ("b", "hasattr"), ("b", "isinstance"),
             ("b", "len"), ("b", "set")):
        return ()
    if f[0] == "attr" and f[1][0] != "super" and f[2] in (
            "get", "items", "keys", "values", "setdefault", "union", "copy"):
        return ()
    return tuple(args) + tuple(v for _, v in kwargs)


def whole_of(st, a, p):
    a = strip(a)
    if a == p:
        return True
    if a[0] == "call" and (a[1] == ("b", "dict") and a[2][:1] == (p,) or
                           a[1] == ("attr", p, "copy")):
        return True
    if a[0] == "obj":
        return any(e[0] == "splat" and strip(e[1]) == p
                   for e in st.objs.get(a[2], ()))
    return False


def stored(evs, dest):
    for e in flat_events(evs):
        if e.kind == "setitem" and strip(e.args[0]) == dest:
            return True
        if e.kind in ("append", "extend") and contains(
                e.args[0], lambda t: t == dest):
            return True
        if e.kind == "call" and e.args[0][0] == "attr" and e.args[0][2] in (
                "append", "__setitem__", "update", "setdefault") and contains(
                    e.args[0][1], lambda t: t == dest):
            return True
    return False


# --- solver output

def solver_outputs(chk):
    """Every path on which a back end returns, it returns what results are
    packed from: an objective, the primal values and a dual solution."""
    for mod, f in sorted(backends(chk.prog).items()):
        outs = chk_paths(chk, f)
        if outs is None:
            continue
        bad, n = None, 0
        for st, v in outs.ret:
            if v[0] != "obj" and not (v[0] == "call" and
                                      v[1] == ("b", "dict")):
                chk.notes.append("undecided: %s returns %s" % (
                    f.qual, shown(v, 60)))
                continue
            n += 1
            got = written(st, v)
            if any(e[0] == "splat" for e in st.objs.get(v[2], ())) \
                    if v[0] == "obj" else False:
                chk.notes.append("undecided: %s returns a copy" % f.qual)
                continue
            for k in ("objective", "primal"):
                if k not in got:
                    bad = "a path returns no %r%s" % (k, _why(st.facts))
            if "nu" not in got and "la" not in got:
                bad = "a path returns no dual solution%s" % \
                    _why(st.facts)
        if n:
            chk.ob("solver-output", f, "output", bad is None, bad,
                   f.node.lineno)
    for q in ("gpkit.constraints.gp.GeometricProgram.solve",):
        f = chk.prog.functions.get(q)
        outs = f and chk_paths(chk, f)
        if not outs:
            continue
        bad, n = None, 0
        for st, v in outs.ret:
            if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "debug":
                continue
            n += 1
            have = {e.args[1][2] for e in flat(st) if e.kind == "setitem"
                    and is_const(e.args[1])}
            for e in flat(st):
                if e.kind == "call" and e.args[0][0] == "attr" and \
                        e.args[0][2] == "update":
                    have |= {k for k, _ in e.args[2]}
                    for a in e.args[1]:
                        have |= set(written(st, a))
            for o in st.objs.values():
                have |= {e[1][2] for e in o if e[0] == "kv" and
                         is_const(e[1])}
            for k in ("solver", "soltime"):
                if k not in have:
                    bad = "a path leaves a solver's output without %r%s" % (
                        k, _why(st.facts))
        if n:
            chk.ob("solver-output", f, "solver and soltime", bad is None,
                   bad, f.node.lineno)


# --- entries taken out

def solutionlike(f, t, depth=0):
    "Whether a term is a solution, by where it comes from."
    t = strip(t)
    in_sa = f.cls is not None and f.cls.qual == SA or \
        f.parent is not None and f.parent.cls is not None and \
        f.parent.cls.qual == SA
    if t[0] == "p":
        if t[1] == "self":
            return in_sa or f.cls is None and f.module.name == \
                "gpkit.solution_array"
        if t[1] == "other":
            return in_sa
        if t[1] == "data":
            return f.cls is None and f.module.name == \
                "gpkit.solution_array" and f.name != "var_table"
        return t[1] in SOLUTION_NAMES
    if t[0] in ("attr", "getattr"):
        return t[2] in ("result", "solution", "solarray") or \
            t[2] in (K("result"), K("solution"))
    if t[0] == "call" and ("gen_result", K(False)) in t[3]:
        return False
    if t[0] == "call" and t[1][0] == "attr":
        return t[1][2] in ("generate_result", "_compile_result",
                           "decompress_file", "solve", "localsolve") and \
            t[1][1] != SELF or t[1][2] in ("generate_result",
                                           "_compile_result")
    if t[0] == "new":
        return t[1] == SA
    if t[0] == "elem":
        return contains(t[1], lambda x: x[0] in ("p", "attr") and
                        x[-1] in ("sols", "results"))
    if t[0] == "sub" and is_const(t[2]) and isinstance(t[2][2], int):
        return contains(t[1], lambda x: x[0] in ("p", "attr") and
                        x[-1] in ("sols", "results"))
    if t[0] == "loopout":
        return any(isinstance(x, tuple) and x and isinstance(x[0], str) and
                   solutionlike(f, x) for x in t[2:] if depth < 2)
    return False


def place(f, base, key):
    """("cost",) for solution["cost"], ("sensitivities", "models") for
    solution["sensitivities"]["models"]; None if it is not an entry."""
    base = strip(base)
    if not is_const(key) or not isinstance(key[2], str):
        return None
    if solutionlike(f, base):
        return (key[2],)
    if base[0] == "sub" and base[2] == K("sensitivities") and \
            solutionlike(f, base[1]):
        return ("sensitivities", key[2])
    if base[0] == "call" and base[1][0] == "attr" and \
            base[1][2] == "get" and base[2][:1] == (K("sensitivities"),) \
            and solutionlike(f, base[1][1]):
        return ("sensitivities", key[2])
    return None


def required(at):
    return at[0] in REQUIRED if len(at) == 1 else at[1] in SENSS


def always_there(at):
    """Entries every producer writes (the constants' sensitivities are the
    variables', by another name; when a result took is always noted)."""
    return required(at) or at in (("soltime",), ("sensitivities",
                                                "constants"))


def removal(e):
    if e.kind == "delitem":
        return e.args[0], e.args[1]
    if e.kind == "call" and e.args[0][0] == "attr" and \
            e.args[0][2] in ("pop", "__delitem__") and e.args[1]:
        return e.args[0][1], e.args[1][0]
    return None


def deletions(chk):
    """Required entries leave a solution only where they are put back; gives
    those a saved solution can be without."""
    optional = set()
    for r in everything(chk):
        f = r.func
        for e in r.events:
            got = removal(e)
            at = got and place(f, *got)
            if not at or not required(at):
                continue
            leave = None
            if f.cls is not None and f.name == "__enter__":
                leave = chk.prog.find_method(f.cls.qual, "__exit__")
            if leave is None:
                chk.ob("entry-kept", f, "/".join(at), False,
                       "%r is taken out of a solution" % "/".join(at),
                       e.line)
                continue
            optional.add(at)
            why = restored(chk, r, leave, at)
            chk.ob("entry-kept", f, "/".join(at), why is None, why, e.line)
    chk.stats["entries a saved solution can be without"] = sorted(
        "/".join(a) for a in optional)
    return optional


def restored(chk, r, leave, at):
    outs = chk_paths(chk, leave)
    if outs is None:
        return None
    for st in r.states:
        if not any(removal(e) and place(r.func, *removal(e)) == at
                   for e in flat(st)):
            continue
        for st2, v in outs.ret:
            if any(t in st2.facts and st2.facts[t] != truth
                   for t, truth in st.facts.items()
                   if t[0] == "attr"):
                continue
            if any(e.kind == "setitem" and place(leave, *e.args[:2]) == at
                   for e in flat(st2)):
                continue
            if any(t[0] == "is" and t[2] == K(None) and truth is True and
                   nothing_taken(r.func, st, t[1], at)
                   for t, truth in st2.facts.items()):
                continue
            return "a path leaves without putting it back%s" % \
                _why(st2.facts)
        if outs.exc and any(e.origin != "implicit" for _, e in outs.exc):
            return None
    return None


def nothing_taken(f, st, kept, at):
    "What an attribute is set to is None only if the entry was not there."
    for e in flat(st):
        if e.kind == "set" and ("attr", strip(e.args[0]), e.args[1]) == \
                strip(kept):
            v = e.args[2]
            return v[0] == "call" and v[1][0] == "attr" and \
                v[1][2] == "pop" and v[2][1:] == (K(None),) and \
                place(f, v[1][1], v[2][0]) == at
    return False


# --- the same entries on every path

def uniform(chk):
    """Results of solves are lined up by their entries, so what a solve takes
    out of its result it takes out on every path that could."""
    prog = chk.prog
    for r in everything(chk):
        f = r.func
        if not r.whole or not any(removal(e) and entry_of(f, removal(e)[0])
                                  for e in r.events):
            continue
        if f.cls is not None and f.name in ("__enter__", "__exit__"):
            continue
        outs = chk_paths(chk, f)
        if outs is None:
            continue
        gone = {}
        for st, v in outs.ret:
            for e in flat(st):
                got = removal(e)
                if got and entry_of(f, got[0]):
                    gone.setdefault((entry_of(f, got[0]),
                                     shown(strip(got[1]), 80)),
                                    (e.line, got[1]))
        if not gone:
            continue
        odd, why, first = set(), None, None
        for (where, what), (line, key) in sorted(
                gone.items(), key=lambda x: x[1][0]):
            for st, v in outs.ret:
                if any(removal(e) and entry_of(f, removal(e)[0]) == where
                       and shown(strip(removal(e)[1]), 80) == what
                       for e in flat(st)):
                    continue
                if absent(st, key):
                    continue
                odd.add(what)
                why = why or "only some paths take %s out of %s, so results" \
                    " do not line up%s" % (what, where, _why(st.facts))
                first = first or line
        chk.ob("entries-uniform", f, "entries taken out: %s" % ", ".join(
            sorted(odd)) if odd else "entries taken out", not odd, why, first)


def entry_of(f, base):
    base = strip(base)
    if base[0] == "sub" and is_const(base[2]):
        at = place(f, base[1], base[2])
        return at and "/".join(at)
    return None


def absent(st, key):
    "A path which knows that a key (or what it belongs to) is not there."
    roots = [t for t in subterms(key)]
    for t, truth in st.facts.items():
        if t[0] in ("hasattr",) and t[1] in roots and truth is False:
            return True
        if t[0] == "call" and t[1] == ("b", "hasattr") and t[2] and \
                t[2][0] in roots and truth is False:
            return True
        if t[0] == "in" and t[1] == key and truth is False:
            return True
    # another key's owner is missing: nothing was added
    return any(t[0] == "hasattr" and truth is False or
               t[0] == "call" and t[1] == ("b", "hasattr") and truth is False
               for t, truth in st.facts.items())


# --- readers

def readers(chk, optional):
    seen = {}
    lines = {}
    for r in everything(chk):
        f = r.func
        if not any(e.kind == "getitem" and place(f, *e.args[:2])
                   for e in r.events):
            continue
        for st in r.states:
            for seq, facts in sequences(st):
                for i, e in enumerate(seq):
                    if e.kind != "getitem":
                        continue
                    at = place(f, *e.args[:2])
                    if not at:
                        continue
                    key = (f, at)
                    lines.setdefault(key, e.line)
                    seen.setdefault(key, None)
                    if always_there(at) and not (
                            at in optional and loaded(f)):
                        continue
                    if guarded(seq[:i], facts, e.args[0], e.args[1], f, at):
                        continue
                    lines[key] = e.line
                    seen[key] = "%r is read but not every solution has it%s" \
                        % ("/".join(at), _why(facts))
    good = {f.qual for f in judged(chk.prog, [k[0] for k in seen])}
    for (f, at), why in sorted(seen.items(),
                               key=lambda x: (x[0][0].qual, x[0][1])):
        if f.qual not in good:
            continue
        chk.ob("read-is-written", f, "/".join(at), why is None, why,
               lines[(f, at)])


def loaded(f):
    "Functions a solution read back from a file goes through."
    return f.module.name == "gpkit.solution_array"


def guarded(before, facts, base, key, f, at):
    facts = dict(facts)
    sbase = strip(base)

    for t, truth in facts.items():
        t = strip(t)
        if t[0] == "not":
            t, truth = t[1], not truth
        if t[0] == "in" and t[1] == key and truth is True and \
                (strip(t[2]) == sbase or place(f, t[2], key) == at):
            return True
        if t[0] == "cmp" and truth is not None and established(
                t, truth, sbase, key, f, at):
            return True
        # the entry was asked for and found
        if truth is True and t[0] == "call" and t[1][0] == "attr" and \
                t[1][2] == "get" and t[2][:1] == (key,) and \
                strip(t[1][1]) == sbase:
            return True
    for e in before:
        if e.kind in ("setitem", "setdefault") and strip(e.args[0]) == sbase \
                and e.args[1] == key:
            return True
        if e.kind == "call" and e.args[0][0] == "attr" and \
                strip(e.args[0][1]) == sbase and e.args[0][2] in (
                    "setdefault", "__setitem__") and \
                e.args[1][:1] == (key,):
            return True
        if e.kind == "call" and e.args[0][0] == "g" and any(
                strip(a) == sbase for a in e.args[1]):
            if at == ("warnings",) and "warning" in e.args[0][1]:
                return True
    return any(x == "KeyError" for x in caught(f, key))


def established(t, truth, base, key, f, at):
    "len(solution.get(key, ())) == 1 and the like can only hold if it is there."
    op, a, b = t[1], t[2], t[3]

    def asks(x):
        return x[0] == "call" and x[1] == ("b", "len") and len(x[2]) == 1 \
            and gets(x[2][0])

    def gets(x):
        return x[0] == "call" and x[1][0] == "attr" and \
            x[1][2] == "get" and x[2][:1] == (key,) and \
            strip(x[1][1]) == base
    n = a if is_const(a) else b if is_const(b) else None
    if n is None or not (asks(a) or asks(b) or gets(a) or gets(b)):
        return False
    if asks(a) or asks(b):
        if op in ("==", "!="):
            equal = truth is (op == "==")
            return equal and n[2] != 0 or not equal and n[2] == 0
        if op in ("<", "<="):
            lo = is_const(a)        # n < len
            return lo and truth is True and (
                n[2] >= 0 if op == "<" else n[2] >= 1) or \
                not lo and truth is False and (
                    n[2] >= 1 if op == "<" else n[2] >= 0)
    return False


def caught(f, key):
    "Handlers around the places where a key is read."
    out = []
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Try):
            continue
        inside = any(isinstance(x, ast.Constant) and x.value == key[2]
                     for s in n.body for x in ast.walk(s))
        if not inside:
            continue
        for h in n.handlers:
            names = [h.type] if not isinstance(h.type, ast.Tuple) \
                else h.type.elts
            for x in names:
                if x is None:
                    out.append("KeyError")
                elif isinstance(x, ast.Name) and x.id in (
                        "KeyError", "LookupError", "Exception"):
                    out.append("KeyError")
    return out


# --- tables

def titles(chk):
    """Tables named in the package are ones there are, and what every table
    function is given unconditionally is given to it."""
    prog = chk.prog
    mod = prog.modules.get("gpkit.solution_array")
    fns, heads = set(), set()
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict):
            for t in n.targets:
                keys = {k.value for k in n.value.keys
                        if isinstance(k, ast.Constant)}
                if isinstance(t, ast.Name) and t.id == "TABLEFNS":
                    fns |= keys
                elif isinstance(t, ast.Name) and t.id == "table_titles":
                    heads |= keys
    if not fns or not heads:
        chk.notes.append("undecided: the tables there are")
        return
    known = fns | heads | {"cost"}
    ok = set(REQUIRED) | {"sweepvariables"}
    f = prog.functions.get(SA + ".table")
    if f is None:
        return
    odd = sorted(heads - ok)
    chk.ob("tables-known", f, "table_titles", not odd,
           "a table of %r, which solutions do not have" % odd,
           f.node.lineno)
    for g in prog.all_functions():
        if ".tests." in g.qual:
            continue
        named = []
        a = g.node.args
        if isinstance(g.node, ast.Lambda):
            continue
        pairs = list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) \
            + list(zip(a.kwonlyargs, a.kw_defaults))
        for arg, d in pairs:
            if arg.arg == "tables" and d is not None:
                named.append(d)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr == "table":
                named += [k.value for k in n.keywords if k.arg == "tables"]
        names = [e.value for d in named
                 if isinstance(d, (ast.Tuple, ast.List, ast.Set))
                 for e in d.elts if isinstance(e, ast.Constant)]
        if names:
            odd = [x for x in names if x not in known]
            chk.ob("tables-known", g, "tables", not odd,
                   "there is no table %r" % odd, g.node.lineno)
    given(chk, f, fns)


def given(chk, f, fns):
    "Entries of **kwargs that table functions read are always passed."
    prog = chk.prog
    need = {}
    for r in everything(chk):
        if r.func.cls is not None or r.func.module.name != \
                "gpkit.solution_array" or r.func.node.args.kwarg is None:
            continue
        name = r.func.node.args.kwarg.arg
        for e in r.events:
            if e.kind == "getitem" and e.args[0] == ("p", name) and \
                    is_const(e.args[1]):
                need.setdefault(e.args[1][2], (r.func, e.line))
    if not need:
        return
    outs = chk_paths(chk, f)
    kw = f.node.args.kwarg
    if outs is None or kw is None:
        return
    for k, (g, line) in sorted(need.items()):
        bad = None
        for st, v in outs.ret:
            if not any(e.kind == "setitem" and e.args[1] == K(k) and
                       strip(e.args[0]) == ("p", kw.arg) or
                       e.kind == "call" and e.args[0] ==
                       ("attr", ("p", kw.arg), "update") or
                       e.kind == "call" and e.args[0] ==
                       ("attr", ("p", kw.arg), "setdefault")
                       for e in st.events):
                if not any(k in [x for x, _ in e.args[2]]
                           for e in flat(st) if e.kind == "call"):
                    bad = "a path draws its tables without %r, which %s" \
                        " reads%s" % (k, g.name, _why(st.facts))
        chk.ob("tables-given", f, k, bad is None, bad, f.node.lineno)
