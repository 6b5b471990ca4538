"""C09: interface matching.  The keyword call that the program makes of a
solver is compared with the parameters of every back end (as selected by name),
each role with the attribute that carries it; the dictionaries the back ends
return on each of their paths are compared with the entries that the program
reads, including whether a value is handed over as itself or as a logarithm;
solver options are followed from the caller through every layer to the solver;
and every solver name that a build can record is run through the selection,
together with the text format the names are stored in."""
import ast

from ..flow import NONE, Engine, K, contains, flat_events, is_const, subterms
from . import each
from .c10 import SELF, Sum, outcomes
from .common import backends, shown

TECHNIQUE = "matching of call, parameter, option and result-key sets"
ASSUMPTIONS = ["solver libraries accept the options their documentation lists",
               "what cvxopt and MOSEK call the objective and x is in log space"
               " (their geometric programming convention)"]
C = "gpkit.constraints."
ROLES = {"c": "cs", "A": "A", "meq_idxs": "meq_idxs", "k": "k",
         "p_idxs": "p_idxs"}


def run(chk):
    arguments(chk)
    options(chk)
    through(chk)
    results(chk)
    names(chk)
    stored(chk)
    chk.need("accepted", 3)
    chk.need("role", 5)
    chk.need("returned", 3)
    chk.need("selectable", 3)


# ----------------------------------------------------------- the call -------
def is_solverfn(t):
    if t[0] == "attr" and hasattr(str, t[2]):
        return False            # a method of the solver's name
    return contains(t, lambda x: x[0] == "call" and x[1][0] == "g"
                    and x[1][1].endswith("._get_solver")) or \
        contains(t, lambda x: x[0] == "g" and x[1].endswith(".optimize")) or \
        contains(t, lambda x: x[0] == "call" and x[1][0] == "g"
                 and x[1][1].endswith(".optimize_generator"))


def spread(st, kwargs, events):
    "Keyword arguments in order: (name or '**', value)."
    out = []
    for k, v in kwargs:
        if k != "**":
            out.append((k, v))
        else:
            out.extend(entries(st, v, events))
    return out


def entries(st, v, events, depth=0):
    """What a mapping holds, in the order it was put there: an entry, or
    another mapping that was poured in."""
    if depth > 5:
        return [("**", v)]
    out = []
    if v[0] == "obj" and v[2] in st.objs:
        for e in st.objs[v[2]]:
            if e[0] == "kv" and is_const(e[1]):
                out.append((e[1][2], e[2]))
            elif e[0] == "splat":
                out.extend(entries(st, e[1], events, depth + 1))
            else:
                out.append(("**", e[1]))
    elif v[0] == "call" and v[1][0] == "attr" and v[1][2] == "copy":
        out.extend(entries(st, v[1][1], events, depth + 1))
    elif v[0] == "call" and v[1] == ("b", "dict") or \
            v[0] == "call" and v[1][0] == "g" and v[1][1].endswith("copy"):
        for a in v[2]:
            out.extend(entries(st, a, events, depth + 1))
        for k, w in v[3]:
            if k == "**":
                out.extend(entries(st, w, events, depth + 1))
            else:
                out.append((k, w))
    else:
        out.append(("**", v))
    for ev in events:
        if ev.kind == "call" and ev.args[0] == ("attr", v, "update"):
            for a in ev.args[1]:
                out.extend(entries(st, a, events, depth + 1))
            for k, w in ev.args[2]:
                if k == "**":
                    out.extend(entries(st, w, events, depth + 1))
                else:
                    out.append((k, w))
        elif ev.kind == "setitem" and ev.args[0] == v and \
                is_const(ev.args[1]) and v[0] != "obj":
            out.append((ev.args[1][2], ev.args[2]))
    return out


def solver_calls(chk):
    "Each call of a solver function by a program: (state, event, keywords)."
    f, _, outs = outcomes(chk, C + "gp.GeometricProgram.solve")
    out = []
    for st, _ in list(outs.ret) + list(outs.exc):
        evs = list(flat_events(st.events))
        for ev in evs:
            if ev.kind == "call" and is_solverfn(ev.args[0]) and not (
                    ev.args[0][0] == "g"):
                out.append((st, ev, spread(st, ev.args[2], evs)))
    return f, out


def arguments(chk):
    f, calls = solver_calls(chk)
    chk.ob("called", f, "the solver", bool(calls), "no path calls the solver")
    if not calls:
        return
    backs = backends(chk.prog)
    for mod, g in sorted(backs.items()):
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        need = set(pos[:len(pos) - len(a.defaults)]) | {
            x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        have = set(pos) | {x.arg for x in a.kwonlyargs}
        missing = extra = None
        open_ = False
        for _, ev, kws in calls:
            given = {k for k, _ in kws}
            open_ |= "**" in given
            if not a.vararg:
                need_kw = need - set(pos[:len(ev.args[1])])
            lack = need_kw - given
            if lack:
                missing = "%s needs `%s`, which the program does not pass" % (
                    mod, "`, `".join(sorted(lack)))
            over = given - have - {"**"}
            if over and not a.kwarg:
                extra = "%s does not accept `%s`" % (
                    mod, "`, `".join(sorted(over)))
            if len(ev.args[1]) > len(pos) and not a.vararg:
                extra = "%s takes %i positional arguments, is given %i" % (
                    mod, len(pos), len(ev.args[1]))
        chk.ob("accepted", g, "problem data", missing is None and
               extra is None, missing or extra)
        chk.ob("accepted", g, "solver options", a.kwarg is not None,
               "%s refuses options it does not name, such as those of another"
               " solver or of a later argument" % mod)
    for name, attr in sorted(ROLES.items()):
        bad, n, line = None, 0, None
        for _, ev, kws in calls:
            vals = [v for k, v in kws if k == name]
            if not vals:
                continue
            n += 1
            seen = {x[2] for x in subterms(vals[-1]) if x[0] == "attr"
                    and x[1] == SELF}
            wrong = seen & (set(ROLES.values()) - {attr})
            if wrong:
                bad, line = "`%s` is given the program's %s" % (
                    name, ", ".join(sorted(wrong))), ev.line
            elif attr not in seen and not contains(
                    vals[-1], lambda x: x == SELF):
                bad, line = "`%s` is not the program's own" % name, ev.line
        if n:
            chk.ob("role", f, name, bad is None, bad, line=line)
        elif any(name in {x for x in g.all_params()}
                 for g in backs.values()):
            chk.ob("role", f, name, False, "back ends take `%s`, the program"
                   " never passes it" % name)


def options(chk):
    "The caller's options are passed on, and win over the defaults."
    f, calls = solver_calls(chk)
    bad, line = None, None
    for _, ev, kws in calls:
        order = [v for k, v in kws if k == "**"]
        own = [i for i, v in enumerate(order) if v == ("p", "kwargs")]
        if not own:
            bad, line = "the caller's solver options are not passed on", \
                ev.line
            continue
        for v in order[own[-1] + 1:]:
            bad, line = "`%s` overrides the options the caller gave" % \
                shown(v, 60), ev.line
    chk.ob("options", f, "options given to a solve", bad is None, bad,
           line=line)
    for mod, g in sorted(backends(chk.prog).items()):
        if mod.endswith(".cvxopt"):
            bad, line, n = cvxopt_options(chk, g)
            chk.ob("options", g, "options reach the solver", bad is None and n,
                   bad or "the solver is never called", line=line)
        top = g
        while top.parent is not None:
            top = top.parent
        if top is not g:
            sel, _, outs = outcomes(chk, C + "gp._get_solver")
            got = [v for st, v in outs.ret for v in subterms(v)
                   if v[0] == "call" and v[1] == ("g", top.qual)]
            bad = None
            for v in got:
                if ("**", ("p", "kwargs")) not in v[3]:
                    bad = "`%s` is made without the caller's options" % \
                        top.name
            chk.ob("options", sel, top.qual, bad is None, bad)


def cvxopt_options(chk, g):
    "What the solver is given: the caller's keywords plus the problem."
    _, _, outs = outcomes(chk, g.qual)
    bad, line, n = None, None, 0
    for st, _ in outs.ret:
        evs = list(flat_events(st.events))
        for ev in evs:
            if ev.kind != "call" or ev.args[0] != ("g", "cvxopt.solvers.gp"):
                continue
            n += 1
            kws = spread(st, ev.args[2], evs)
            if ("**", ("p", "kwargs")) not in kws:
                bad, line = "the options are not passed to the solver", ev.line
            if len(ev.args[1]) + len({k for k, _ in kws} & set("KFg")) < 3:
                bad, line = "K, F and g are not all passed", ev.line
        for ev in evs:
            what = None
            if ev.kind == "delitem" and ev.args[0] == ("p", "kwargs"):
                what = ev.args[1]
            elif ev.kind == "call" and ev.args[0][0] == "attr" and \
                    ev.args[0][1] == ("p", "kwargs") and ev.args[0][2] in (
                        "clear", "popitem"):
                what = ev.args[0]
            elif ev.kind == "setitem" and ev.args[0] == ("p", "kwargs") and \
                    not (is_const(ev.args[1]) and ev.args[1][2] in (
                        "A", "b", "G", "h")):
                what = ev.args[1]
            if what is not None:
                bad, line = "the caller's options are changed (%s)" % shown(
                    what, 40), ev.line
    return bad, line, n


def through(chk):
    "Options and solver choice are handed through every layer."
    todo = [
        (C + "prog_factories.solvify.<locals>.solvefn", "solveargs",
         lambda t: contains(t, lambda x: x[0] == "call" and
                            x[1] == ("p", "genfunction") or x[0] == "call"
                            and x[1] in (("free", "genfunction"),
                                         ("genfunction",)))),
        (C + "prog_factories.run_sweep", "solveargs",
         lambda t: contains(t, lambda x: x[0] == "call" and x[1] == (
             "p", "genfunction"))),
        (C + "sgp.SequentialGeometricProgram.localsolve", "solveargs",
         lambda t: t[0] == "attr" and t[2] == "solve"),
    ]
    for qual, pname, is_next in todo:
        if qual not in chk.prog.functions:
            chk.notes.append("undecided: no %s" % qual)
            continue
        f, _, outs = outcomes(chk, qual)
        pname = f.node.args.kwarg.arg if f.node.args.kwarg else pname
        bad, line, n = None, None, 0
        for st, _ in list(outs.ret) + list(outs.exc):
            evs = list(flat_events(st.events))
            for ev in evs:
                if ev.kind != "call" or not is_next(ev.args[0]) or \
                        ev.args[0][0] == "attr" and ev.args[0][2] != "solve":
                    continue
                n += 1
                kws = spread(st, ev.args[2], evs)
                if not any(k == "**" and v == ("p", pname) for k, v in kws):
                    bad, line = "options given to the solve are not handed" \
                        " on", ev.line
                sol = [v for k, v in kws if k == "solver"] + \
                    list(ev.args[1][:1])
                if not any(v == ("p", "solver") for v in sol):
                    bad, line = "the caller's choice of solver is not handed" \
                        " on", ev.line
        if n:
            chk.ob("handed-on", f, "solver and options", bad is None, bad,
                   line=line)
        else:
            chk.notes.append("undecided: no inner solve seen in " + qual)


# ------------------------------------------------------------- results ------
def read_keys(chk):
    "Entries of a solver's output that the program reads: all, and if there."
    always, maybe = set(), set()
    for qual in (C + "gp.GeometricProgram._compile_result",
                 C + "gp.GeometricProgram._generate_nula",
                 C + "sgp.SequentialGeometricProgram.localsolve"):
        f = chk.prog.functions.get(qual)
        if f is None:
            continue
        _, _, outs = outcomes(chk, qual)
        for st, _ in outs.ret:
            tested = {t[1][2] for t, b in st.facts.items() if t[0] == "in"
                      and b and is_const(t[1])
                      and solver_out(t[2])}
            put = set()
            for ev in flat_events(st.events):
                if ev.kind == "setitem" and solver_out(ev.args[0]) and \
                        is_const(ev.args[1]):
                    put.add(ev.args[1][2])
                if ev.kind == "getitem" and solver_out(ev.args[0]) and \
                        is_const(ev.args[1]):
                    k = ev.args[1][2]
                    if k not in put:
                        (maybe if k in tested else always).add(k)
            maybe |= tested
    return always - maybe, maybe


def solver_out(t):
    return t == ("p", "solver_out") or t[0] == "call" and \
        t[1][0] == "attr" and t[1][2] == "solve"


def added(chk):
    "Entries the program itself writes into a solver's output."
    out = set()
    _, _, outs = outcomes(chk, C + "gp.GeometricProgram.solve")
    for st, _ in outs.ret:
        for ev in flat_events(st.events):
            if ev.kind == "setitem" and is_const(ev.args[1]):
                out.add(ev.args[1][2])
    return out


def results(chk):
    always, maybe = read_keys(chk)
    always -= added(chk)
    duals = maybe & {"nu", "la"} or {"nu", "la"}
    for mod, g in sorted(backends(chk.prog).items()):
        _, _, outs = outcomes(chk, g.qual)
        bad, n = None, 0
        logs = {"objective": set(), "primal": set()}
        for st, v in outs.ret:
            n += 1
            d = dict(entries(st, v, list(flat_events(st.events))))
            if not d or "**" in d and len(d) == 1:
                bad = "a path returns %s, not a dictionary of results" % \
                    shown(v, 60)
                continue
            lack = always - set(d)
            if lack and "**" not in d:
                bad = "a path returns no `%s`, which the program reads" % \
                    "`, `".join(sorted(lack))
            if not duals & set(d) and "**" not in d:
                bad = "a path returns neither `nu` nor `la`"
            for k in always | (duals & set(d)):
                if d.get(k) == K(None):
                    bad = "`%s` is None on a path" % k
            for k, s in logs.items():
                if k in d:
                    s.add(scale(st, d[k]))
        chk.ob("returned", g, "entries", bad is None and n > 0,
               bad or "it never returns", line=None)
        if "objective" in logs:
            raw = {a for a, _ in logs["objective"]}
            want = 0 if mod.endswith("mosek_cli") else 1
            chk.ob("space", g, "objective", raw <= {want},
                   "the objective is %s: the program takes it as it is, not"
                   " as a logarithm" % (
                       "left as the solver's logarithm" if want else
                       "transformed"))
            raw = {a for a, _ in logs["primal"]}
            chk.ob("space", g, "primal", raw <= {0}, "the primal solution is"
                   " transformed: the program takes it as logarithms")


def scale(st, v):
    "How often exp (less log) is applied on the way out, and the source."
    n = 0
    while True:
        if v[0] == "call" and len(v[2]) >= 1 and v[1][0] in ("g", "b"):
            name = v[1][1].rpartition(".")[2]
            if name == "exp":
                n += 1
            elif name == "log":
                n -= 1
            elif name not in ("float", "ravel", "array", "asarray", "list"):
                break
            v = v[2][0]
        elif v[0] == "call" and v[1][0] == "attr" and v[1][2] in (
                "ravel", "copy", "flatten", "tolist"):
            v = v[1][1]
        else:
            break
    return n, v[0]


# --------------------------------------------------------------- names ------
def recorded(prog):
    "Names of the solvers a build looks for: {name: class}."
    out = {}
    base = "gpkit.build.SolverBackend"
    for q, cls in prog.classes.items():
        if not q.startswith("gpkit.build.") or q == base:
            continue
        if not prog.is_subclass(q, base):
            continue
        for s in cls.node.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == "name"
                    for t in s.targets) and isinstance(s.value, ast.Constant):
                if s.value.value:
                    out[s.value.value] = q
    return out


def selected(chk, name):
    "(ok, why): what selecting a solver by name comes to."
    f = chk.prog.functions[C + "gp._get_solver"]
    eng = Engine(chk.prog, Sum(chk.prog))
    outs = eng.run(f, args={"solver": K(name)})
    chk.analysed(eng.stats["functions"])
    if not outs.ret:
        return False, "no path selects a solver for `%s`" % name
    mods = set()
    for st, v in outs.ret:
        if v[0] != "tuple" or len(v[1]) != 2:
            return None, "undecided"
        if v[1][0] != K(name):
            return False, "selecting `%s` reports %s" % (
                name, shown(v[1][0], 40))
        for x in subterms(v[1][1]):
            if x[0] == "g":
                mods.add(x[1].rpartition(".")[0])
    return True, mods


def names(chk):
    f = chk.prog.functions[C + "gp._get_solver"]
    seen = {}
    for name, cls in sorted(recorded(chk.prog).items()):
        ok, what = selected(chk, name)
        if ok is None:
            chk.notes.append("undecided: selection of " + name)
            continue
        chk.ob("selectable", f, "solver name '%s'" % name, ok,
               "%s, although a build can record it (%s)" % (what, cls))
        if ok:
            for m in what:
                seen.setdefault(m, set()).add(name)
    for m, ns in sorted(seen.items()):
        chk.ob("selectable", f, "module " + m, len(ns) == 1,
               "the names %s all select %s" % (", ".join(sorted(ns)), m))
    eng = Engine(chk.prog, Sum(chk.prog))
    mods = {x[1].rpartition(".")[0]
            for _, v in eng.run(f, args={"solver": NONE}).ret
            for x in subterms(v) if x[0] == "g"}
    lost = set(seen) - mods
    chk.ob("selectable", f, "no name given", not lost,
           "a recorded default solver is not selected (%s)" % ", ".join(
               sorted(lost)))
    for q in ("gpkit.constraints.gp.DEFAULT_SOLVER_KWARGS",
              "gpkit.constraints.gp.SOLUTION_TOL"):
        mod, _, var = q.rpartition(".")
        m = chk.prog.modules[mod]
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == var
                    for t in s.targets) and isinstance(s.value, ast.Dict):
                for k in s.value.keys:
                    if isinstance(k, ast.Constant):
                        ok, what = selected(chk, k.value)
                        chk.ob("selectable", q, "key '%s'" % k.value,
                               ok is not False, "%s: the table's entry is"
                               " never used" % (what,), line=k.lineno)


def stored(chk):
    "The text the build writes is split where settings are read."
    f, _, outs = outcomes(chk, "gpkit.build.build")
    joins, lines = set(), set()
    for st, _ in outs.ret:
        for ev in flat_events(st.events):
            if ev.kind == "setitem" and ev.args[1] == K("installed_solvers"):
                v = ev.args[2]
                if v[0] == "call" and v[1][0] == "attr" and \
                        v[1][2] == "join" and is_const(v[1][1]):
                    joins.add(v[1][1][2])
            if ev.kind == "call" and ev.args[0][0] == "attr" and \
                    ev.args[0][2] == "write" and ev.args[1]:
                for x in subterms(ev.args[1][0]):
                    if is_const(x) and isinstance(x[2], str) and \
                            x[2].count("%s") == 2:
                        lines.add(x[2].split("%s")[1])
    g, _, outs2 = outcomes(chk, "gpkit.globals.load_settings")
    splits = set()
    default = None
    flat = None
    for st, v in outs2.ret:
        for ev in flat_events(st.events):
            if ev.kind == "call" and ev.args[0][0] == "attr" and \
                    ev.args[0][2] in ("split", "partition") and ev.args[1] \
                    and is_const(ev.args[1][0]):
                splits.add(ev.args[1][0][2])
        for (b, loc), val in st.heap.items():
            if loc == ("k", K("default_solver")) or (
                    isinstance(loc, tuple) and loc[1] == K("default_solver")):
                ok = val[0] in ("sub", "only") and val[-1] == K(0) and \
                    contains(val, lambda x: x == K("installed_solvers"))
                if not ok and val[0] == "sub" and val[2] != K(0):
                    default = "the default solver is `%s`, not the first" \
                        " recorded name" % shown(val, 60)
        for ev in each.all_loops(st.events):
            for p in ev.args[2]:
                for e in p[1]:
                    if e.kind == "setitem" and e.args[2][0] in ("only", "sub") \
                            and e.args[1][0] in ("key", "sub", "elem"):
                        keep = any(
                            t[0] == "cmp" and t[1] == "==" and b is False and
                            K("installed_solvers") in t[2:] for t, b in p[2])
                        if not keep:
                            flat = "a list of one solver is flattened into" \
                                " its name, whose first letter is then the" \
                                " default solver"
    if joins and splits:
        chk.ob("stored", f, "list of names", joins <= splits,
               "names are joined by %s but split at %s" % (
                   sorted(joins), sorted(splits)))
    if lines and splits:
        chk.ob("stored", f, "line of a setting", lines <= splits,
               "a setting is written with %s but split at %s" % (
                   sorted(lines), sorted(splits)))
    chk.ob("stored", g, "default solver", default is None, default)
    chk.ob("stored", g, "one solver", flat is None, flat)
