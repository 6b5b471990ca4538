"""C08: exception-flow analysis.  The solver call of the program layer is made
to fail in turn with each kind of exception, and the class of every exit is
compared with the kind that went in: the four infeasibilities and an invalid
license keep their class (or become the debugging result, under exactly the
conditions that promise one), anything else becomes an unknown infeasibility
whose cause is the original.  Every function between a solve and its caller
must hand each kind on; a sweep may go on only past infeasibilities and only
on paths where it was asked to.  In the back ends, each status or return code
that names a kind must raise that kind and no other may raise it."""
import ast

from ..flow import NONE, K, contains, flat_events
from ..model import AnalysisBroken, walk_shallow
from .common import backends, judged, shown
from . import outcomes as oc
from .c07 import is_debug, is_progsolve, sequences, solve_functions
from .c11 import paths
from .outcomes import KINDS, STATUS, X, status_facts, tag

TECHNIQUE = "exception-flow analysis: exit classes per injected failure kind"
ASSUMPTIONS = ["only the solver call itself fails while a kind is traced"]
SOLVES = ("solve", "localsolve", "sweep", "autosweep", "autosweep_1d",
          "recurse_splits")
DEBUG = "gpkit.constraints.model.Model.debug"
INFEASIBLE = ("Infeasible", "PrimalInfeasible", "DualInfeasible",
              "UnknownInfeasible")
LICENSE = {"gpkit.solvers.mosek_cli": ("returncode", {233, 240}),
           "gpkit.solvers.mosek_conif": (
               "errno", {"mosek.rescode.err_missing_license_file",
                         "mosek.rescode.err_license_version",
                         "mosek.rescode.err_license_expired"})}


def run(chk):
    prog = chk.prog
    program_layer(chk)
    debugging(chk)
    sweeps(chk)
    passing(chk)
    back_ends(chk)
    solver_errors(chk)
    chk.need("kind-kept", 7)
    chk.need("kind-passed-on", 14)


def positive(facts, name):
    "A recorded comparison says the parameter is above zero."
    for t, b in facts.items():
        if t == ("p", name) and b:
            return True
        if t[0] == "cmp" and ("p", name) in t[2:]:
            if t == ("cmp", "<", K(0), ("p", name)) and b or \
                    t == ("cmp", "<=", ("p", name), K(0)) and not b or \
                    t == ("cmp", "<=", K(1), ("p", name)) and b or \
                    t == ("cmp", "<", ("p", name), K(1)) and not b:
                return True
    return False


def program_layer(chk):
    f = oc.gp_solve(chk.prog)
    for name, cls in sorted(KINDS.items()):
        eng, outs = oc.run_outcome(chk.prog, f, oc.is_backend_call, cls)
        chk.analysed(eng.stats["functions"])
        want = cls
        if name == "ValueError":
            want = X + "UnknownInfeasible"
        bad, line, n = None, None, 0
        for st, e in outs.exc:
            n += 1
            if e.cls != want:
                bad = "a failure of kind %s leaves as %s" % (name, e.cls)
                line = e.line
            elif name == "ValueError" and not (
                    e.cause and contains(e.cause, lambda t: t[0] == "excval")):
                bad = "the unexpected exception is not recorded as the cause"
                line = e.line
        for st, v in outs.ret:
            n += 1
            model = ("attr", ("p", "self"), "model")
            if not is_debug(v) or name not in INFEASIBLE:
                bad = "a failure of kind %s returns %s" % (name, shown(v, 60))
            elif not positive(st.facts, "verbosity"):
                bad = "a failure is debugged although nothing may be printed"
            elif eng.truth(("is", model, NONE), st) is not False and \
                    st.facts.get(model) is not True:
                bad = "a failure is debugged without a model to debug"
            elif may_be_none(chk.prog) and st.facts.get(v) is not True and \
                    eng.truth(("is", v, NONE), st) is not False:
                bad = ("what debugging gives is returned although it may be"
                       " None, and the failure is lost")
        if name in INFEASIBLE and not outs.exc:
            bad = "a failure of kind %s never raises" % name
        chk.ob("kind-kept", f, "solver raises " + name, bad is None and n > 0,
               bad or "no exit", line=line)


def may_be_none(prog):
    "Debugging can end without a solution."
    f = prog.functions.get(DEBUG)
    if f is None:
        return False
    named = {n.value.id for n in ast.walk(f.node) if isinstance(
        n, ast.Return) and isinstance(n.value, ast.Name)}
    return any(isinstance(n, ast.Assign) and isinstance(
        n.value, ast.Constant) and n.value.value is None and any(
            isinstance(t, ast.Name) and t.id in named for t in n.targets)
               for n in ast.walk(f.node))


def debugging(chk):
    """A failure is only debugged as the model whose own constants failed, and
    debugging works for every model."""
    prog = chk.prog
    f = prog.functions.get(
        "gpkit.constraints.prog_factories.progify.<locals>.programfn")
    if f is not None and len(f.all_params()) > 1:
        me, given = (("p", n) for n in f.all_params()[:2])
        bad = None
        for st, _ in paths(chk, f).ret:
            if st.facts.get(given) is not True:
                continue
            for (b, loc), v in st.heap.items():
                if loc == ".model" and v == me:
                    bad = ("a program of other constants, as of a sweep's"
                           " point, is debugged as the model with its own")
        chk.ob("debugged-as-itself", f, "the program's model", bad is None,
               bad)
    f = prog.functions.get(DEBUG)
    if f is None:
        return
    bad, line = None, None
    outs = paths(chk, f)
    for st in oc_states(outs):
        for e in flat_events(st.events):
            if e.kind != "call" or e.args[0][0] != "attr" or \
                    e.args[0][2] not in ("prod", "sum"):
                continue
            arr = e.args[0][1]
            if not (arr[0] == "attr" and arr[2] == "relaxvars" and contains(
                    arr[1], lambda t: t[-1] != "" and t[0] in (
                        "new", "g") and str(t[1]).endswith(
                            ".ConstantsRelaxed"))):
                continue
            if not any(contains(t, lambda x: x == arr) for t in st.facts):
                bad, line = ("of the constants' relaxations, of which there"
                             " may be none, the product is taken"), e.line
    chk.ob("debugging-works", f, "models without constants to relax",
           bad is None, bad, line=line)


def sweeps(chk):
    prog = chk.prog
    for f, _ in solve_functions(prog):
        sweep = f.name == "run_sweep"
        for name, cls in sorted(KINDS.items()):
            eng, outs = oc.run_outcome(prog, f, is_progsolve(prog), cls)
            chk.analysed(eng.stats["functions"])
            bad, line = None, None
            for st, e in outs.exc:
                if not any(ev.kind == "solveraised" for ev in st.events):
                    continue
                if e.cls == cls:
                    continue
                line = e.line
                if not (sweep and name in INFEASIBLE and e.cause and contains(
                        e.cause, lambda t: t[0] == "excval" and t[1] == cls)):
                    bad = "a failure of kind %s leaves as %s%s" % (
                        name, e.cls, "" if e.cause else " without its cause")
            ways = []
            for st in [s for s, _ in outs.ret] + [s for s, _ in outs.exc]:
                for evs, facts in iterations(st.events):
                    ways.append((evs, facts))
            for st, v in outs.ret:
                if any(ev.kind == "solveraised" for ev in st.events):
                    ways.append((st.events, dict(st.facts)))
            for evs, facts in ways:
                if not any(ev.kind == "solveraised" for ev in evs):
                    continue
                if name not in INFEASIBLE:
                    bad = "a failure of kind %s is skipped" % name
                elif not sweep:
                    bad = "a failure of kind %s is swallowed" % name
                elif facts.get(("p", "skipsweepfailures")) is not True:
                    bad = ("a failure of kind %s is skipped although this was"
                           " not asked for" % name)
            chk.ob("kind-passed-on", f, "solve raises " + name, bad is None,
                   bad, line=line)


def iterations(events):
    "Loop iterations that go on: their events and what is known on them."
    for ev in events:
        if ev.kind == "loop":
            for kind, evs, facts in [p[:3] for p in ev.args[2]]:
                if kind in ("next", "continue", "break"):
                    yield evs, dict(facts)
                yield from iterations(evs)


def passing(chk):
    "Functions between a solve and the user hand every failure on."
    prog = chk.prog
    seeds = []
    for f in prog.all_functions():
        if f.module.name.startswith("gpkit.interactive.widgets"):
            continue    # shows failures in the notebook
        for n in walk_shallow(f.node):
            if isinstance(n, ast.Call):
                m = n.func.attr if isinstance(n.func, ast.Attribute) else \
                    getattr(n.func, "id", None)
                if m in SOLVES:
                    seeds.append(f)
                    break
    own = {f.qual for f, _ in solve_functions(prog)} | {
        oc.gp_solve(prog).qual}

    def pred(eng, frame, f, args, kwargs):
        if f[0] == "attr" and f[2] in SOLVES:
            return True
        return f[0] == "g" and f[1].rpartition(".")[2] in SOLVES

    for f in judged(prog, seeds):
        if f.qual in own or f.module.name.startswith(
                "gpkit.interactive.widgets"):
            continue
        for name, cls in sorted(KINDS.items()):
            spec = oc.OutcomeSpec(prog, pred, cls)
            from ..flow import Engine
            eng = Engine(prog, spec)
            outs = eng.run(f)
            if not spec.hits:
                continue
            chk.analysed(eng.stats["functions"])
            bad, line = None, None
            if f.name == "debug" and name in INFEASIBLE:
                continue    # its purpose is to look into these
            for st, e in outs.exc:
                if any(ev.kind == "solveraised" for ev in st.events) and \
                        e.cls != cls:
                    bad = "a failure of kind %s leaves as %s" % (name, e.cls)
                    line = e.line
                if sum(ev.kind == "solveraised" for ev in st.events) > 1:
                    bad = ("after a failure of kind %s there is another"
                           " solve" % name)
            for st in [s for s, _ in outs.ret]:
                if any(ev.kind == "solveraised" for ev in st.events):
                    bad = "a failure of kind %s is swallowed" % name
            for st in oc_states(outs):
                for evs, _ in iterations(st.events):
                    if any(ev.kind == "solveraised" for ev in evs):
                        bad = "a failure of kind %s is skipped" % name
            chk.ob("kind-passed-on", f, "solve raises " + name, bad is None,
                   bad, line=line)


def oc_states(outs):
    return [s for s, _ in outs.ret] + [s for s, _ in outs.exc]


# cvxopt's documentation has it raise ValueError when the matrices' rank shows
# that the problem has no optimum; nothing is said of feasibility by these
OTHERS = ("ArithmeticError", "TypeError", "KeyError", "MemoryError",
          "AttributeError")


def solver_errors(chk):
    """An error of the solver's own, other than the documented one about rank,
    is no certificate of infeasibility."""
    f = chk.prog.functions.get("gpkit.solvers.cvxopt.optimize")
    if f is None:
        return

    def solver(eng, frame, t, args, kwargs):
        return t == ("g", "cvxopt.solvers.gp")
    for cls in OTHERS:
        try:
            eng, outs = oc.run_outcome(chk.prog, f, solver, cls)
        except AnalysisBroken as e:
            chk.notes.append("undecided: %s (%s)" % (f.qual, e))
            return
        bad = line = None
        for st, e in outs.exc:
            if e.cls in (X + "PrimalInfeasible", X + "DualInfeasible",
                         X + "InvalidLicense"):
                bad, line = "the solver's %s, which says nothing of" \
                    " feasibility, leaves as %s" % (
                        cls, e.cls.rpartition(".")[2]), e.line
        chk.ob("kind-needs-status", f, "solver raises " + cls, bad is None,
               bad, line=line)


def back_ends(chk):
    prog = chk.prog
    for mod, func in sorted(backends(prog).items()):
        known = STATUS.get(mod)
        if known is None:
            continue
        about, _, kinds = known
        eng, outs = oc.run_backend(prog, func)
        seen = {}
        for st, e in outs.exc:
            for t, tags in status_facts(st):
                if not about(t):
                    continue
                names = {tag(x) for x in tags}
                if len(names) == 1 and names <= set(kinds):
                    name = names.pop()
                    ok = e.cls == kinds[name]
                    seen[name] = seen.get(name, True) and ok
                    if not ok:
                        chk.ob("status-names-kind", func, "status " + name,
                               False, "a solver that reports %s raises %s" % (
                                   name, e.cls), line=e.line)
        for name, cls in sorted(kinds.items()):
            if seen.get(name, None) is not False:
                chk.ob("status-names-kind", func, "status " + name,
                       name in seen, "no path tells status %s apart, so it"
                       " does not reach the caller as %s" % (
                           name, cls.rpartition(".")[2]))
        for st, e in outs.exc:   # certificates are claimed only when given
            for name, cls in kinds.items():
                if e.cls != cls:
                    continue
                got = any(about(t) and {tag(x) for x in tags} == {name}
                          for t, tags in status_facts(st))
                chk.ob("kind-needs-status", func, "raises %s" %
                       cls.rpartition(".")[2], got,
                       "raised on a path where the solver did not report %s"
                       % name, line=e.line)
        lic = LICENSE.get(mod)
        if lic is None:
            continue
        attr, codes = lic
        found, bad, line = set(), None, None
        for st, e in outs.exc:
            got = set()
            for t, tags in status_facts(st):
                if t[0] == "attr" and t[2] == attr:
                    got = {tag(x) for x in tags}
            if e.cls == X + "InvalidLicense":
                if not got or not got <= codes:
                    bad = "an error that is not about the license raises" \
                        " InvalidLicense (%s)" % sorted(map(str, got))
                    line = e.line
                found |= got
            elif got & codes:
                bad = "license error %s raises %s" % (sorted(map(str, got)),
                                                      e.cls)
                line = e.line
        if bad is None and found != codes:
            bad = "license errors %s are not recognised" % sorted(
                map(str, codes - found))
        chk.ob("license-errors", func, "license return codes", bad is None,
               bad, line=line)
