"""C14: must-pass-through analysis.  Between a solver's output and the caller
every path has to go through the solution check (and the check itself through
each of its comparisons, for every constraint), and between a result and the
solution it is appended to every path has to go through the model's
post-processing; each class that extends post-processing must run its base
class's on every path, and a constraint set that of every member at any depth.
The only way around is the caller's own switch, tested on that very path."""
import ast

from ..flow import NONE, Engine, K, contains, flat_events, is_const, subterms
from ..model import AnalysisBroken, walk_shallow
from . import each
from . import outcomes as oc
from .c07 import is_debug, is_progsolve, solve_functions
from .c10 import SELF, Sum, all_through, outcomes, selfattr
from .common import judged, shown
from .outcomes import OutcomeSpec, X

TECHNIQUE = "must-pass-through analysis on all paths, loops covered generically"
ASSUMPTIONS = ["constraint sets given by a user that override process_result"
               " call their base class's"]
GP = "gpkit.constraints.gp.GeometricProgram"
SGP = "gpkit.constraints.sgp.SequentialGeometricProgram"
SET = "gpkit.constraints.set.ConstraintSet"


def run(chk):
    checked(chk)
    comparisons(chk)
    stored(chk)
    processed(chk)
    extended(chk)
    chk.need("checked", 2)
    chk.need("comparison", 6)
    chk.need("from-output", 3)
    chk.need("processed", 2)
    chk.need("base-processing", 6)


def is_call_of(method):
    def pred(eng, frame, f, args, kwargs):
        return f == ("attr", SELF, method)
    return pred


def calls_of(events, method):
    for ev in events:
        if ev.kind in ("call", "solved", "solveraised") and ev.args and \
                ev.args[0] == ("attr", SELF, method):
            yield ev


# ------------------------------------------------------ the check is run ----
CHECK = ("cost", "primal", "nu", "la", "tol")


def checked(chk):
    f = chk.prog.method(GP, "generate_result")
    out = ("p", "solver_out")
    spec = OutcomeSpec(chk.prog, is_call_of("check_solution"), None)
    eng = Engine(chk.prog, spec)
    outs = eng.run(f)
    chk.analysed(eng.stats["functions"])
    bad, line = None, None
    for st, v in outs.ret:
        ran = [ev for ev in st.events if ev.kind == "solved"]
        if not ran:
            bad = "a path returns %s without checking it" % shown(v, 60)
            bad += each.why(dict(st.facts))
            continue
        if not contains(v, lambda t: t[0] == "call" and t[1][0] == "attr"
                        and t[1][2] == "_compile_result") and \
                v[0] not in ("obj", "new"):
            bad = "what is returned is %s" % shown(v, 80)
        for ev in ran:
            given = dict(zip(CHECK, ev.args[1]))
            given.update(ev.args[2])
            line = ev.line
            for key, t in sorted(given.items()):
                want = {"cost": "cost", "primal": "primal", "nu": "nu",
                        "la": "la"}.get(key)
                if want and not contains(t, lambda x: x == K(want)):
                    bad = "the check's %s is %s" % (key, shown(t, 60))
                elif key in ("primal", "nu", "la") and not contains(
                        t, lambda x: x == out):
                    bad = "the check's %s is not the solver's" % key
            if set(CHECK[:4]) - set(given):
                bad = "the check is not given all of %s" % (CHECK[:4],)
    chk.ob("checked", f, "%i returning paths" % len(outs.ret),
           bad is None and bool(outs.ret), bad or "no path returns",
           line=line)
    # a failing check is said
    spec = OutcomeSpec(chk.prog, is_call_of("check_solution"),
                       X + "Infeasible")
    eng = Engine(chk.prog, spec)
    outs = eng.run(f)
    bad, n = None, 0
    for st, v in list(outs.ret) + list(outs.exc):
        if not any(ev.kind == "solveraised" for ev in st.events):
            continue
        n += 1
        if not isinstance(v, tuple):
            continue      # the exception goes on to the caller
        said = any(ev.kind == "call" and (
            ev.args[0] == ("b", "print") or ev.args[0][0] == "g" and
            ev.args[0][1].endswith("warn")) and contains(
                ev.args[1], lambda t: t[0] == "excval" or
                t == ("p", "<failure>"))
                   for ev in flat_events(st.events))
        switched = st.facts.get(("p", "dual_check")) is False and any(
            t[0] == "in" and t[1] == K("Dual") and b
            for t, b in st.facts.items())
        if not (said or switched):
            bad = "a failed check is passed over%s" % each.why(
                {t: b for t, b in st.facts.items() if contains(
                    t, lambda x: x[0] == "excval" or x[0] == "p" and
                    x[1] in ("verbosity", "dual_check"))})
    chk.ob("checked", f, "a failed check is reported", bad is None and n > 0,
           bad or "no path sees the check fail")


# --------------------------------------------- the check's own comparisons --
def below(facts):
    "Orders known on a path: (smaller, larger) term pairs."
    for t, b in facts:
        yield from order(t, b)


def order(t, b):
    if t[0] == "not":
        yield from order(t[1], not b)
    elif t[0] == "cmp" and t[1] in ("<", "<="):
        yield (t[2], t[3]) if b else (t[3], t[2])
    elif t[0] == "cmp" and t[1] == "==" and b:
        yield t[2], t[3]
        yield t[3], t[2]
    elif t[0] == "call" and t[2]:
        name = t[1][1].rpartition(".")[2] if t[1][0] in ("b", "g") else \
            t[1][2] if t[1][0] == "attr" else ""
        if name == "any" and not b or name == "all" and b:
            yield from order(t[2][0], b)
        if name in ("isclose", "allclose") and b and len(t[2]) > 1:
            yield t[2][0], t[2][1]
            yield t[2][1], t[2][0]
    elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("any", "all"):
        if (t[1][2] == "any") != b:
            yield from order(t[1][1], b)


def worth(t, env):
    "The number a closed term stands for, or None."
    if t in env:
        return env[t]
    if is_const(t) and isinstance(t[2], (int, float)):
        return t[2]
    if t[0] == "neg":
        v = worth(t[1], env)
        return None if v is None else -v
    if t[0] == "bin":
        a, c = worth(t[2], env), worth(t[3], env)
        if a is None or c is None:
            return None
        try:
            return {"+": a + c, "-": a - c, "*": a * c,
                    "/": a / c if c else None,
                    "**": a ** c}.get(t[1])
        except (ArithmeticError, TypeError):
            return None
    return None


def has(*terms):
    return lambda t: all(contains(t, lambda x, w=w: x == w) for w in terms)


PRIMAL, COST, TOL = ("p", "primal"), ("p", "cost"), ("p", "tol")
A, CS = ("attr", SELF, "A"), ("attr", SELF, "cs")
MI, NBP = ("attr", SELF, "m_idxs"), ("attr", SELF, "nu_by_posy")


def loose(bound, at_most):
    "The bound exceeds what the tolerances allow."
    for tol in (1e-3, 1e-4, 1e-6):
        v = worth(bound, {TOL: tol, ("p", "abstol"): 1e-20})
        if v is None:
            return False
        if v > at_most(tol) * (1 + 1e-9) + 1e-15:
            return True
    return False


def resolve(st, t):
    "The term with what its generator objects hold put beside it."
    seen, parts, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        parts.append(x)
        for s in subterms(x):
            if s[0] == "obj" and s not in seen:
                seen.add(s)
                for e in st.objs.get(s[2], ()):
                    todo.extend(e[1:-1])
                    todo.extend(l[0] for l in e[-1])
            elif s[0] in ("loopout", "loopvar", "phi") and s not in seen:
                seen.add(s)
    return ("tuple", tuple(parts))


def close(st, facts, one, other):
    "The path knows a term of one kind to be close to one of the other."
    for lo, hi in below(facts):
        lo_, hi_ = resolve(st, lo), resolve(st, hi)
        for a, c, raw in ((lo_, hi_, hi), (hi_, lo_, lo)):
            if one(a) and other(c) and not one(c):
                # equal, or ordered both ways
                if (hi, lo) in set(below(facts)):
                    return True
        if one(lo_) and other(lo_) and contains(
                lo, lambda t: t[0] == "call" and t[1][0] in ("b", "g") and
                t[1][1].rpartition(".")[2] in ("abs", "absolute", "fabs")
                or t[0] == "bin" and t[1] == "**") and not \
                loose(hi, lambda tol: tol):
            return True
    return False


def comparisons(chk):
    f, eng, outs = outcomes(chk, GP + ".check_solution")

    def number(x):
        return lambda t: contains(t, lambda s: s == K(x) or s == K(float(x)))

    def first(t):
        return contains(t, lambda s: s[0] == "sub" and
                        s[1] in (MI, NBP) and s[2] == K(0))

    bad = {}
    n = len(outs.ret)
    for st, _ in outs.ret:
        facts = tuple(st.facts.items())
        if not close(st, facts, lambda t: has(PRIMAL, CS, A)(t) and first(t),
                     has(COST)):
            bad["cost"] = "the cost is not compared with the primal solution"
        cov = each.Coverage(
            lambda t: t == MI or t == ("sub", MI, ("slice", K(1), NONE, NONE))
            or t == ("sub", MI, ("slice", K(1), NONE)), lambda ev: False)
        over_all = False
        for ev in each.all_loops(st.events):
            if not (cov.is_src(ev.args[0]) or each.over(
                    ev.args[0], cov.is_src) == "whole"):
                continue
            on = [p for p in ev.args[2] if p[0] != "raise"]
            if on and all(p[0] in ("next", "continue") and (
                    bounded(st, p[2]) or objective(p[2])) for p in on):
                over_all = True
        if not over_all and not bounded_whole(st, facts):
            bad["primal"] = ("a path goes on although a constraint's value"
                             " is not known to be at most 1")
        if not close(st, facts, lambda t: has(NBP)(t) and first(t) and
                     not has(COST)(t), number(1)):
            bad["objective dual"] = ("the objective's dual variables are not"
                                     " compared with 1")
        nu = ("p", "nu")
        if not any(has(nu)(hi) and not has(nu)(lo) and
                   -1e-3 <= (worth(lo, {TOL: 1.0}) or 0) <= 1e-9
                   and not has(A)(hi)
                   for lo, hi in below(facts)):
            bad["sign"] = "negative dual variables are not looked for"
        if not any(has(nu, A)(resolve(st, lo)) and not loose(
                hi, lambda tol: tol) and worth(hi, {TOL: 1e-3}) is not None
                   for lo, hi in below(facts)):
            bad["stationarity"] = "A^T nu is not compared with zero"
        if not close(st, facts, lambda t: has(NBP, CS)(t) and
                     contains(t, lambda s: s == ("p", "la")), has(COST)):
            bad["dual cost"] = "the dual cost is not compared with the cost"
    for name in ("cost", "primal", "objective dual", "sign", "stationarity",
                 "dual cost"):
        chk.ob("comparison", f, name, name not in bad and n > 0,
               bad.get(name) or "no path returns")


def objective(facts):
    "The iteration is the objective's, known by its position."
    return any(t[0] == "cmp" and t[1] == "==" and b and K(0) in t[2:] and any(
        x[0] == "idx" for x in t[2:]) or t[0] == "idx" and not b or
               t[0] == "cmp" and t[1] == "<" and t[2] == K(0) and
               t[3][0] == "idx" and not b for t, b in facts)


def bounded(st, facts):
    return any(has(PRIMAL, CS)(resolve(st, lo)) and
               contains(lo, lambda t: t[0] == "elem" or t[0] == "idx") and
               worth(hi, {TOL: 1e-3}) is not None and
               not loose(hi, lambda tol: 1 + tol)
               for lo, hi in below(facts))


def bounded_whole(st, facts):
    "One comparison over a collection built from all the constraints."
    def src(t):
        return t in (MI, ("sub", MI, ("slice", K(1), NONE, NONE)))
    for t, b in facts:
        if t[0] != "call" or not t[2] or t[1] not in (
                ("b", "any"), ("b", "all")) or (t[1][1] == "all") != b:
            continue
        for e in st.objs.get(t[2][0][2], ()) if t[2][0][0] == "obj" else ():
            if e[0] != "item" or not any(
                    has(PRIMAL, CS)(resolve(st, lo)) and
                    worth(hi, {TOL: 1e-3}) is not None and
                    not loose(hi, lambda tol: 1 + tol)
                    for lo, hi in order(e[1], b)):
                continue
            cov = each.collected(st, st.events, t[2][0], src)
            if cov.covering and not cov.problems:
                return True
    return False


# --------------------------------------------------- what a solve hands on --
def generates(t, out=None):
    """A result made from the solver's output with all of the check: its dual
    part is left out only where the caller said so."""
    return t[0] == "call" and t[1][0] == "attr" and \
        t[1][2] == "generate_result" and (out is None or any(
            out(a) for a in list(t[2]) + [v for _, v in t[3]])) and all(
                v == K(True) or v[0] == "p" and v[1] == k
                for k, v in t[3] if k == "dual_check")


def stored(chk):
    prog = chk.prog
    f = oc.gp_solve(prog)
    eng, outs = oc.run_outcome(prog, f, oc.is_backend_call, None)
    chk.analysed(eng.stats["functions"])
    bad, n = None, 0
    for st, v in outs.ret:
        if is_debug(v):
            continue
        n += 1
        solved = [("call",) + ev.args for ev in st.events
                  if ev.kind == "solved"]
        if st.facts.get(("p", "gen_result")) is False:
            if not any(v == t for t in solved):
                bad = "without a result, %s is returned" % shown(v, 60)
            continue
        if v == ("attr", SELF, "result") or v == ("attr", SELF, "_result"):
            v = st.heap.get((SELF, "._result"), NONE)
        if not generates(v, lambda a: a in solved):
            bad = "a path returns %s, not a checked result of the solver's" \
                " output" % shown(v, 80)
        kept = st.heap.get((SELF, "._result"))
        if kept not in (None, NONE) and not generates(kept):
            bad = "%s is stored as the result" % shown(kept, 80)
    chk.ob("from-output", f, "%i returning paths" % n, bad is None and n > 0,
           bad or "no path returns")
    f = prog.method(GP, "result")
    eng, outs = run_plain(chk, f)
    bad = None
    for st, v in outs.ret:
        if v == ("attr", SELF, "_result") and \
                known_there(eng, st, v) and (SELF, "._result") not in st.heap:
            continue
        if not generates(v, lambda a: a == ("attr", SELF, "solver_out")):
            bad = "returns %s" % shown(v, 80)
    chk.ob("from-output", f, "the result property", bad is None and
           bool(outs.ret), bad)
    f = prog.method(SGP, "localsolve")
    eng, outs = run_plain(chk, f)
    bad = None
    for st, v in outs.ret:
        if is_debug(v):
            continue
        if v == ("attr", SELF, "result"):
            v = st.heap.get((SELF, ".result"), NONE)
        if not generates(v):
            bad = "returns %s" % shown(v, 80)
        kept = st.heap.get((SELF, ".result"))
        if kept not in (None, NONE) and not generates(kept):
            bad = "%s is stored as the result" % shown(kept, 80)
    for st, _ in outs.exc:
        kept = st.heap.get((SELF, ".result"))
        if kept not in (None, NONE) and not generates(kept):
            bad = "%s is stored as the result" % shown(kept, 80)
    chk.ob("from-output", f, "the sequential result", bad is None and
           bool(outs.ret), bad)


def known_there(eng, st, v):
    if st.facts.get(v) is True:
        return True
    return any(t[0] == "is" and t[1] == v and t[2] == NONE and not b
               for t, b in st.facts.items())


def run_plain(chk, f):
    eng = Engine(chk.prog, Sum(chk.prog))
    outs = eng.run(f)
    chk.analysed(eng.stats["functions"])
    return eng, outs


# -------------------------------------------------------- post-processing ---
def switched_off(facts):
    for t, b in facts:
        if b or not contains(t, lambda x: x == K("process_result")):
            continue
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and \
                t[2] == (K("process_result"), K(True)):
            return True
        if t[0] == "sub" and t[2] == K("process_result"):
            return True
    return any(t == ("p", "process_result") and not b for t, b in facts)


def processed(chk):
    prog = chk.prog
    for f, _ in solve_functions(prog):
        spec = OutcomeSpec(prog, is_progsolve(prog), None)
        spec.loop_mode = "summary"
        eng = Engine(prog, spec)
        outs = eng.run(f)
        chk.analysed(eng.stats["functions"])
        bad, line, n = None, None, 0
        for st in [s for s, _ in outs.ret] + [s for s, _ in outs.exc]:
            for evs, facts in stretches(st):
                done = []
                for ev in evs:
                    if ev.kind == "call" and ev.args[0] == (
                            "attr", SELF, "process_result"):
                        done += list(ev.args[1]) + [v for _, v in ev.args[2]]
                    got = appended(ev)
                    if got is None:
                        continue
                    n += 1
                    if got in done or switched_off(facts):
                        continue
                    bad, line = ("a result is put into the solution without"
                                 " the model's post-processing%s" % each.why(
                                     {t: b for t, b in facts if contains(
                                         t, lambda x: x[0] == "p")}), ev.line)
        chk.ob("processed", f, "%i appends" % n, bad is None and n > 0,
               bad or "no result is put into the solution", line=line)
    # nothing but debugging may switch it off
    for f in judged(prog, [g for g in prog.all_functions() if switches(g)]):
        ok = f.name == "debug"
        chk.ob("processed", f, "who switches it off", ok,
               "post-processing is switched off by something other than the"
               " caller")


def switches(g):
    for n in walk_shallow(g.node):
        if isinstance(n, ast.Subscript) and isinstance(
                n.ctx, (ast.Store, ast.Del)) and isinstance(
                    n.slice, ast.Constant) and \
                n.slice.value == "process_result":
            return True
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "setdefault", "pop") and n.args and isinstance(
                        n.args[0], ast.Constant) and \
                    n.args[0].value == "process_result":
                return True
            for k in n.keywords:
                if k.arg == "process_result" and not (isinstance(
                        k.value, ast.Constant) and k.value.value is True):
                    return True
        if isinstance(n, ast.Dict) and any(
                isinstance(k, ast.Constant) and k.value == "process_result"
                for k in n.keys):
            return True
    return False


def stretches(st):
    "Event sequences with the facts they happen under."
    yield st.events, tuple(st.facts.items())
    todo = list(st.events)
    while todo:
        ev = todo.pop()
        if ev.kind == "loop":
            for p in ev.args[2]:
                yield p[1], p[2]
                todo.extend(p[1])


def appended(ev):
    "The result an event puts into the solution."
    if ev.kind == "call" and ev.args[0][0] == "attr" and \
            ev.args[0][2] == "append" and ev.args[1]:
        base = ev.args[0][1]
        if base == ("p", "solution") or base[0] in ("new", "obj") and \
                contains(ev.args[1][0], lambda t: t[0] == "call" and contains(
                    t[1], lambda x: x == ("p", "genfunction"))):
            return ev.args[1][0]
    if ev.kind == "append" and contains(
            ev.args[1], lambda t: t[0] == "call" and contains(
                t[1], lambda x: x == ("call",)) or t[0] == "call" and
            t[1][0] == "sub" and contains(
                t[1], lambda x: x[0] == "call" and
                x[1] == ("p", "genfunction"))):
        return ev.args[1]
    return None


def extended(chk):
    prog = chk.prog
    f, eng, outs = outcomes(chk, SET + ".process_result")

    def flat_self(t):
        return t[0] == "call" and (
            t[1] == ("attr", SELF, "flat") or t[1][0] == "g" and
            t[1][1].endswith(".flatiter") and bool(t[2]) and t[2][0] == SELF)

    def processes(ev):
        return ev.kind == "call" and ev.args[0][0] == "attr" and \
            ev.args[0][2] == "process_result" and \
            ("p", "result") in ev.args[1] + tuple(v for _, v in ev.args[2])
    covs = []
    for st, _ in outs.ret:
        covs += each.reaches(st, st.events, flat_self, processes,
                             lambda fs: any(
                                 t[0] == "hasattr" and not b and
                                 t[2] == "process_result"
                                 for t, b in fs.items()))
    all_through(chk, "base-processing", f, "members at any depth", covs)
    bad = None
    for st, _ in outs.ret:
        for t in [x for ev in flat_events(st.events) for a in ev.args
                  if isinstance(a, tuple) for x in subterms(a)]:
            if flat_self(t):
                kw = dict(t[3])
                a = kw.get("yield_if_hasattr") or (
                    t[2][1] if t[1][0] == "g" and len(t[2]) > 1 else
                    t[2][0] if t[1][0] == "attr" and t[2] else NONE)
                if a not in (K("process_result"), NONE):
                    bad = "members are selected by %s" % shown(a)
                if a == NONE:
                    bad = ("members that are sets are taken apart without"
                           " running their own post-processing")
    chk.ob("base-processing", f, "members asked", bad is None, bad)
    # computed variables
    UV = ("attr", SELF, "unique_varkeys")

    def computes(ev):
        return ev.kind == "setitem" and contains(
            ev.args[0], lambda t: t == K("variables")) and contains(
                ev.args[2], lambda t: t[0] == "call" and
                t[1][0] == "attr" and t[1][2] == "evalfn")

    def known(fs):
        return any(t[0] == "attr" and t[2] == "evalfn" and not b or
                   t[0] == "is" and t[1][0] == "attr" and
                   t[1][2] == "evalfn" and b or
                   t[0] == "in" and b and contains(
                       t[2], lambda x: x == K("variables"))
                   for t, b in fs.items())
    covs = []
    for st, _ in outs.ret:
        covs += each.reaches(st, st.events, lambda t: t == UV, computes,
                             known)
    all_through(chk, "base-processing", f, "computed variables", covs)
    # overriding methods
    for c in prog.classes.values():
        m = c.methods.get("process_result")
        if m is None or c.qual == SET:
            continue
        if not any(b != c.qual and "process_result" in prog.classes[b].methods
                   for b in prog.mro(c.qual) if b in prog.classes):
            chk.notes.append("%s has no base class with post-processing" %
                             c.qual)
            continue
        eng, outs = run_plain(chk, m)
        bad = None
        res = ("p", m.all_params()[1]) if len(m.all_params()) > 1 else None
        for st, _ in outs.ret:
            ran = False
            for ev in st.events:
                if ev.kind == "call" and ev.args[0][0] == "attr" and \
                        ev.args[0][2] == "process_result" and \
                        based(prog, c, ev.args[0][1], ev.args[1]) and \
                        (res in ev.args[1] or res in
                         [v for _, v in ev.args[2]]):
                    ran = True
            if not ran:
                bad = ("a path ends without running the base class's"
                       " post-processing%s" % each.why(dict(st.facts)))
        chk.ob("base-processing", m, c.name, bad is None and bool(outs.ret),
               bad or "never returns")


def based(prog, cls, t, args):
    if t[0] == "super":
        return True
    return t[0] == "g" and t[1] in prog.mro(cls.qual) and \
        t[1] != cls.qual and bool(args) and args[0] == SELF
