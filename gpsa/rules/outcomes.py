"Shared by C07 and C08: what a solver call's outcome does to its caller."
import ast

from ..flow import NONE, Engine, Exc, K, Spec, contains, is_const, subterms
from ..model import AnalysisBroken, walk_shallow
from .common import backends

X = "gpkit.exceptions."
KINDS = {"PrimalInfeasible": X + "PrimalInfeasible",
         "DualInfeasible": X + "DualInfeasible",
         "UnknownInfeasible": X + "UnknownInfeasible",
         "Infeasible": X + "Infeasible",
         "InvalidLicense": X + "InvalidLicense",
         "ValueError": "ValueError",
         "KeyboardInterrupt": "KeyboardInterrupt"}


class OutcomeSpec(Spec):
    "Exactly one call (the solver's) raises exactly one class, or returns."
    implicit_raises = False

    def __init__(self, prog, is_solve, raises):
        super().__init__(prog)
        self.is_solve, self.raises, self.hits = is_solve, raises, 0

    def relevant(self, ev):
        return ev.kind in ("solveraised", "solved", "append", "call")

    def on_call(self, eng, st, frame, f, args, kwargs, node):
        if not self.is_solve(eng, frame, f, args, kwargs):
            return None
        self.hits += 1
        t = ("call", f, args, kwargs)
        st = st.copy()
        if self.raises is None:
            eng.emit(st, frame, "solved", (f, args, kwargs), node)
            return [(st, t)]
        eng.emit(st, frame, "solveraised", (self.raises,), node)
        frame.raises.append((st, Exc(self.raises, ("p", "<failure>"),
                                     node.lineno, frame.func.qual, "solve")))
        return []


def is_backend_call(eng, frame, f, args, kwargs):
    return any(k == "A" for k, _ in kwargs) and f[0] != "b" and \
        not (f[0] == "g" and f[1] in eng.prog.functions)


def is_method_call(*names):
    def pred(eng, frame, f, args, kwargs):
        return f[0] == "attr" and f[2] in names
    return pred


def run_outcome(prog, func, is_solve, cls):
    spec = OutcomeSpec(prog, is_solve, cls)
    eng = Engine(prog, spec)
    outs = eng.run(func)
    if not spec.hits:
        raise AnalysisBroken("no solver call found in %s" % func.qual)
    return eng, outs


def gp_solve(prog):
    return prog.method("gpkit.constraints.gp.GeometricProgram", "solve")


class BackendSpec(Spec):
    "Paths of a back end with the solver's own calls opaque."
    implicit_raises = True
    max_states = 400

    def relevant(self, ev):
        return ev.kind == "call" and ev.args[0][0] != "b"


def run_backend(prog, func):
    eng = Engine(prog, BackendSpec(prog))
    outs = eng.run(func)
    return eng, outs


def status_facts(st):
    """Equalities known about solver statuses: [(term, tag set)]."""
    out = []
    for t, b in st.facts.items():
        if not b:
            continue
        if t[0] in ("cmp", "is") and (t[0] == "is" or t[1] == "=="):
            a, c = (t[2], t[3]) if t[0] == "cmp" else (t[1], t[2])
            out.append((a, {c}))
            out.append((c, {a}))
        elif t[0] == "in":
            items = members(t[2], st)
            if items:
                out.append((t[1], set(items)))
    return out


def members(c, st):
    if c[0] == "tuple":
        return c[1]
    if c[0] == "obj" and c[2] in st.objs and all(
            e[0] in ("item", "kv") for e in st.objs[c[2]]):
        return tuple(e[1] for e in st.objs[c[2]])
    return None


# what each back end's solver calls a status, and what it means
def about_cvxopt(t):
    return any(x[0] in ("sub", "call") and K("status") in x[1:] or
               (x[0] == "call" and x[2] and x[2][0] == K("status"))
               for x in subterms(t)) and contains(
                   t, lambda x: x[0] == "call" and
                   x[1][0] == "g" and x[1][1].startswith("cvxopt"))


def about_cli(t):
    return contains(t, lambda x: x[0] == "const" and len(x) == 3 and
                    isinstance(x[2], str) and "PROBLEM STATUS" in x[2])


def about_conif(t):
    return contains(t, lambda x: x[0] == "call" and x[1][0] == "attr"
                    and x[1][2] in ("getsolsta",))


def tag(t):
    if is_const(t):
        return t[2]
    if t[0] == "g":
        return t[1]
    if t[0] == "attr":
        inner = tag(t[1])
        return "%s.%s" % (inner, t[2]) if inner else t[2]
    return None


STATUS = {
    "gpkit.solvers.cvxopt": (about_cvxopt, {"optimal"}, {}),
    "gpkit.solvers.mosek_cli": (
        about_cli, {"PRIMAL_AND_DUAL_FEASIBLE"},
        {"PRIMAL_INFEASIBLE": X + "PrimalInfeasible",
         "DUAL_INFEASIBLE": X + "DualInfeasible"}),
    "gpkit.solvers.mosek_conif": (
        about_conif, {"mosek.solsta.optimal"},
        {"mosek.solsta.prim_infeas_cer": X + "PrimalInfeasible",
         "mosek.solsta.dual_infeas_cer": X + "DualInfeasible"}),
}
