"""C07: typestate of a solver's outcome.  Every path of each back end that
returns a solution must have established, on that path, that the status the
solver reported for this very call is the optimal one; every path on which the
status is known to be another must leave by an infeasibility error.  In the
program and model layers the solver call is made to fail in turn with each
kind of exception: no path may then return a solution, store one, or append
one."""
import ast

from ..flow import contains, subterms, flat_events
from ..model import AnalysisBroken
from .common import backends, shown
from . import outcomes as oc
from .outcomes import KINDS, STATUS, X, status_facts, tag

TECHNIQUE = "typestate of solver status over all paths of back ends and callers"
ASSUMPTIONS = ["the solver libraries report their own status truthfully",
               "status names of the installed solver versions are unchanged"]


def stored(st, attrs):
    for (b, loc), v in st.heap.items():
        if isinstance(loc, str) and loc[1:] in attrs and b[0] == "p":
            if v != ("const", "NoneType", None) and not (
                    v[0] == "obj" and st.objs.get(v[2]) == ()):
                yield loc[1:], v


def is_debug(v):
    return v[0] == "call" and v[1][0] == "attr" and v[1][2] == "debug"


def run(chk):
    prog = chk.prog
    for mod, func in sorted(backends(prog).items()):
        known = STATUS.get(mod)
        if known is None:
            continue
        about, good, _ = known
        eng, outs = oc.run_backend(prog, func)
        chk.analysed(eng.stats["functions"])
        bad = None
        n = 0
        for st, v in outs.ret:
            n += 1
            ok = False
            for t, tags in status_facts(st):
                if about(t) and {tag(x) for x in tags} <= good:
                    ok = True
            if not ok:
                what = [shown(t, 80) for t, _ in status_facts(st)]
                bad = ("a path returns %s without the solver's status being"
                       " established as %s (known there: %s)" % (
                           shown(v, 60), "/".join(sorted(good)), what[:4]))
        if not n:
            raise AnalysisBroken("%s never returns" % func.qual)
        chk.ob("optimal-at-return", func, "%i returning paths" % n,
               bad is None, bad)
        bad, line, n = None, None, 0
        for st, e in outs.exc:
            other = any(not b and about_eq(t, about) for t, b in
                        st.facts.items())
            if not other or any(about(t) and {tag(x) for x in tags} <= good
                                for t, tags in status_facts(st)):
                continue
            n += 1
            if X + "Infeasible" not in prog.exc_bases(e.cls or ""):
                bad = "a status other than optimal raises %s" % e.cls
                line = e.line
        chk.ob("other-status-infeasible", func, "%i raising paths" % n,
               bad is None and n > 0, bad or "no path raises for a status"
               " other than optimal", line=line)
    failed_calls(chk)


def earlier(prog, f, st):
    "A solution of an earlier solve is still there after a failed one."
    res = prog.method(f.cls.qual, "result") if f.cls is not None else None
    if res is None:
        return None
    reads = {n.attr for n in ast.walk(res.node) if isinstance(
        n, ast.Attribute) and isinstance(n.value, ast.Name)
        and n.value.id == "self"}
    me = ("p", "self")
    for attr in ("solver_out", "_result"):
        if attr not in reads:
            continue
        v = st.heap.get((me, "." + attr))
        if v is None or v == ("attr", me, attr):
            return ("after a failed solver call .%s is still that of an"
                    " earlier one, which .result returns" % attr)
    return None


def about_eq(t, about):
    if t[0] == "cmp" and t[1] == "==":
        return about(t[2]) or about(t[3])
    if t[0] in ("in", "is"):
        return about(t[1])
    return False


def failed_calls(chk):
    prog = chk.prog
    todo = [(oc.gp_solve(prog), oc.is_backend_call, ("_result", "result")),
            (prog.method("gpkit.constraints.sgp.SequentialGeometricProgram",
                         "localsolve"), oc.is_method_call("solve"),
             ("result",))]
    for f, pred, attrs in todo:
        for name, cls in sorted(KINDS.items()):
            eng, outs = oc.run_outcome(prog, f, pred, cls)
            chk.analysed(eng.stats["functions"])
            bad = None
            for st, v in outs.ret:
                if is_debug(v):
                    continue
                bad = "when the solver call raises %s, a path returns %s" % (
                    name, shown(v, 80))
            for st, _ in list(outs.ret) + list(outs.exc):
                for a, v in stored(st, attrs):
                    bad = "when the solver call raises %s, .%s is set to %s" \
                        % (name, a, shown(v, 60))
                if "_result" in attrs:
                    bad = bad or earlier(prog, f, st)
                elif st.heap.get((("p", "self"), ".result")) in (
                        None, ("attr", ("p", "self"), "result")):
                    bad = ("after a failed solve .result is still that of an"
                           " earlier one")
            chk.ob("failure-yields-nothing", f, "solver raises " + name,
                   bad is None, bad)
    for f, attrs in solve_functions(prog):
        for name, cls in sorted(KINDS.items()):
            eng, outs = oc.run_outcome(prog, f, is_progsolve(prog), cls)
            chk.analysed(eng.stats["functions"])
            bad = None
            for st in [s for s, _ in outs.ret] + [s for s, _ in outs.exc]:
                for evs in sequences(st.events):
                    failed = False
                    for ev in evs:
                        if ev.kind == "solveraised":
                            failed = True
                        elif failed and appends(ev):
                            bad = ("after the solve raised %s the path goes on"
                                   " to append %s (line %i)" % (
                                       name, shown(ev.args[1] if ev.kind ==
                                                   "call" else ev.args, 60),
                                       ev.line))
            for st, v in outs.ret:
                if any(e.kind == "solveraised" for e in st.events):
                    bad = "when the solve raises %s, a path returns %s" % (
                        name, shown(v, 60))
                    continue
            for st, _ in outs.exc:
                for a, v in stored(st, attrs):
                    if v[0] != "loopout":
                        bad = "when the solve raises %s, .%s is set" % (name, a)
            chk.ob("failure-yields-nothing", f, "solve raises " + name,
                   bad is None, bad)


def appends(ev):
    if ev.kind == "append":
        return True
    return ev.kind == "call" and ev.args[0][0] == "attr" and \
        ev.args[0][2] in ("append", "process_result") and \
        ev.args[0][1] == ("p", "solution")


def sequences(events):
    "Event sequences: of the path itself, and of each loop iteration in it."
    yield events
    for ev in events:
        if ev.kind == "loop":
            for p in ev.args[2]:
                yield from sequences(p[1])


def is_progsolve(prog):
    """A call of the solve function that a program factory returned: the
    callee derives from a call of the `genfunction` parameter."""
    def pred(eng, frame, f, args, kwargs):
        return contains(f, lambda t: t[0] == "call" and
                        t[1] in (("p", "genfunction"), ("genfunction",)))
    return pred


def solve_functions(prog):
    out = []
    for q in ("gpkit.constraints.prog_factories.solvify.<locals>.solvefn",
              "gpkit.constraints.prog_factories.run_sweep"):
        f = prog.functions.get(q)
        if f is None:
            raise AnalysisBroken("%s not found" % q)
        out.append((f, ("solution", "result")))
    return out
