"""C10: coverage dataflow.  Along the route of a constraint - constraint set,
flattening, the <=1 forms of each constraint class, the program's coefficient
and exponent lists, each back end's partition of them - every loop or
comprehension that carries constraints is interpreted for a generic element:
each path that goes on must hand the element on, none may stop early, and only
part of a collection may never stand for the whole.  The few places that may
drop something (a tautology, the second half of an equality) must have tested
exactly that on the path that drops it.  The terms of an inequality are followed
as its constraints are: none may be overwritten while a map is re-keyed, and a
constant that leaves no room for the other terms must be refused."""
from ..flow import Engine, K, NONE, Spec, all_events, contains, flat_events, \
    is_const, strip, subterms
from ..model import AnalysisBroken
from . import algebra, each, updates
from .allrun import everything
from .common import backends, shown
from .each import collected, feeding, over

TECHNIQUE = "coverage dataflow over generic loop iterations"
ASSUMPTIONS = ["zip()ed collections that are built together have equal"
               " lengths"]
SELF = ("p", "self")


class Sum(Spec):
    loop_mode = "summary"


def P(name):
    return lambda t: t == ("p", name)


def selfattr(name):
    return lambda t: t == ("attr", SELF, name)


def outcomes(chk, qual, cls=None):
    f = chk.prog.functions.get(qual)
    if f is None:
        raise AnalysisBroken("no function %s" % qual)
    eng = Engine(chk.prog, Sum(chk.prog))
    outs = eng.run(f)
    chk.analysed(eng.stats["functions"])
    if not outs.ret and not outs.exc:
        raise AnalysisBroken("%s has no outcome" % qual)
    return f, eng, outs


def all_through(chk, rule, f, construct, covs):
    "One obligation from the coverages of a function's outcomes."
    bad, line, n = None, None, 0
    for cov in covs:
        n += 1
        if cov.problems:
            line, bad = cov.problems[0]
        elif not cov.covering:
            bad = bad or "on some path nothing hands the elements on"
    chk.ob(rule, f, construct, bad is None and n > 0,
           bad or "no path", line=line)


def run(chk):
    sets(chk)
    forms(chk)
    programs(chk)
    solvers(chk)
    derived_sets(chk)
    rekeyed(chk)
    chk.need("every-element", 25)


# ------------------------------------------------------- constraint sets ----
def sets(chk):
    S = "gpkit.constraints.set."
    f, eng, outs = outcomes(chk, S + "sort_constraints_dict")
    covs = []
    for st, v in outs.ret:
        part = eng.index(v, K(1), st) if v[0] != "tuple" else v[1][1]
        covs.append(collected(st, st.events, part, P("iterable")))
    all_through(chk, "every-element", f, "values of a constraint dictionary",
                covs)

    f, eng, outs = outcomes(chk, S + "flatiter")

    def source(t):
        return t == ("p", "iterable") or t[0] == "sub" and \
            t[1] == ("call", ("g", S + "sort_constraints_dict"),
                     (("p", "iterable"),), ()) and t[2] == K(1)
    covs = []
    for st, _ in outs.ret:
        covs.append(each.Coverage(source, each.yields).run(st, st.events))
    all_through(chk, "every-element", f, "constraints flattened", covs)
    # what is not a constraint itself is gone into, whole
    bad = None
    for st, _ in outs.ret:
        for ev in flat_events(st.events):
            if ev.kind == "yieldfrom":
                v = ev.args[0]
                if not contains(v, lambda t: t[0] == "elem"):
                    bad = "yields from %s" % shown(v, 80)
                if v[0] == "call" and v[1][0] == "g" and v[1][1] == f.qual \
                        and v[2][0][0] != "elem":
                    bad = "yields from %s" % shown(v, 80)
    chk.ob("every-element", f, "nested collections", bad is None, bad)

    f, eng, outs = outcomes(chk, S + "ConstraintSet.as_hmapslt1")

    def flat_self(t):
        if t[0] != "call":
            return False
        if t[1] == ("g", S + "flatiter"):
            return bool(t[2]) and t[2][0] == SELF
        return t[1] == ("attr", SELF, "flat")
    covs = []
    for st, _ in outs.ret:
        ys = [ev.args[0] for ev in flat_events(st.events)
              if ev.kind in ("yield", "yieldfrom")]
        cov = collected(st, st.events, ("tuple", tuple(ys)), flat_self,
                        also=each.yields)
        covs.append(cov)
        stop = [ev.args[0] for ev in flat_events(st.events)
                if ev.kind == "call" and flat_self(("call",) + ev.args)]
        stop += [l[0] for e in st.objs.values() for x in e for l in x[-1]
                 if flat_self(l[0])]
    all_through(chk, "every-element", f, "constraints turned into hmaps", covs)
    # members that are sets are asked as a whole, others one by one
    bad = None
    for t in terms_of(outs):
        if flat_self(t):
            kw = dict(t[3])
            arg = kw.get("yield_if_hasattr") or (
                t[2][1] if t[1][0] == "g" and len(t[2]) > 1 else
                t[2][0] if t[1][0] == "attr" and t[2] else NONE)
            if arg not in (K("as_hmapslt1"), NONE):
                bad = "members are selected by %s" % shown(arg)
    chk.ob("every-element", f, "members asked", bad is None, bad)

    f, eng, outs = outcomes(chk, S + "ConstraintSet.__init__")
    bad, n = None, 0
    for st, _ in outs.ret:
        for ev in flat_events(st.events):
            if ev.kind == "call" and is_list_init(ev.args[0]):
                n += 1
                v = ev.args[1][-1]
                src = lambda t: t == ("p", "constraints") or \
                    t[0] == "sub" and t[2] == K(1) and t[1][0] == "call" and \
                    t[1][2] == (("p", "constraints"),)
                if not any(each.mentions(x, src) for x in held(st, v)):
                    bad = "holds %s" % shown(v, 80)
                if any(each.narrowed(x, src) for x in held(st, v)):
                    bad = "holds %s" % shown(v, 80)
    chk.ob("every-element", f, "members kept", n > 0 and bad is None,
           bad or "list.__init__ is not given the constraints")
    # variables and substitutions are taken from every member
    covs = []

    def update(ev):
        return ev.kind == "call" and ev.args[0] == ("attr", SELF, "_update")

    def is_self(t):
        return t == SELF
    for st, _ in outs.ret:
        cov = each.Coverage(is_self, update, exempt=lambda fs: any(
            t[0] == "hasattr" and not b and t[2] == "vks" and
            t[1][:2] == ("elem", SELF) for t, b in fs.items())).run(
                st, st.events)
        covs.append(cov)
        covs.append(each.Coverage(
            lambda t: t[0] == "call" and t[1][0] == "g" and
            t[1][1].endswith(".flatiter"), update).run(st, st.events))
    all_through(chk, "every-element", f, "members' variables noted", covs)

    f, eng, outs = outcomes(chk, "gpkit.constraints.array.ArrayConstraint"
                            ".__iter__")
    covs = []
    for st, v in outs.ret:
        ys = [ev.args[0] for ev in flat_events(st.events)
              if ev.kind in ("yield", "yieldfrom")] + [v]
        cov = collected(st, st.events, ("tuple", tuple(ys)),
                        selfattr("constraints"), also=each.yields)
        if any(over(y, selfattr("constraints")) for y in ys):
            cov.covering += 1
        covs.append(cov)
    all_through(chk, "every-element", f, "constraints of an array", covs)


def is_list_init(f):
    return f[0] == "attr" and f[2] == "__init__" and f[1] in (
        ("b", "list"),) or f[0] in ("super", "attr") and \
        f[-1] == "__init__" and contains(f, lambda t: t[0] == "super")


def terms_of(outs):
    seen = set()
    for ev in all_events(outs):
        for a in ev.args:
            if isinstance(a, tuple):
                for t in subterms(a):
                    if t not in seen:
                        seen.add(t)
                        yield t
    for st in [s for s, _ in outs.ret] + [s for s, _ in outs.exc]:
        for ents in st.objs.values():
            for e in ents:
                for x in e[1:-1] + tuple(l[0] for l in e[-1]):
                    for t in subterms(x):
                        if t not in seen:
                            seen.add(t)
                            yield t


# -------------------------------------------------------- <=1 forms ---------
M = "gpkit.nomials.math."


def none_or_empty(facts):
    "A path that has found the simplified form of its element empty."
    for t, b in facts.items():
        if t[0] == "is" and b and NONE in t[1:] and \
                contains(t, lambda x: x[0] == "call"):
            return True
        if t[0] == "call" and b is False:
            return True
    return False


def forms(chk):
    f, eng, outs = outcomes(chk, M + "PosynomialInequality.as_hmapslt1")
    covs = [collected(st, st.events, v, selfattr("unsubbed"),
                      exempt=lambda fs: none_or_empty(fs) and any(
                          contains(t, lambda x: x[0] == "attr" and
                                   x[2] == "_simplify_posy_ineq")
                          for t in fs))
            for st, v in outs.ret]
    all_through(chk, "every-element", f, "posynomials <= 1", covs)

    f, eng, outs = outcomes(chk, M + "PosynomialInequality"
                            "._simplify_posy_ineq")
    hmap = ("p", "hmap")
    const = ("sub", hmap, ("g", "gpkit.small_classes.EMPTY_HV"))
    bad, line, n = None, None, 0
    for st, v in outs.ret:
        n += 1
        lone = any(t == ("cmp", "==", ("call", ("b", "len"), (hmap,), ()),
                         K(1)) and b for t, b in st.facts.items())
        has = [b for t, b in st.facts.items()
               if t[0] == "in" and t[2] == hmap]
        above = all(excluded(st.facts, c) for c in (1.002, 1.5, 2., 1e9))
        if v == NONE and not (has == [True] and lone and above):
            bad = "a constraint is dropped that is not a feasible constant" \
                + each.why(st.facts)
        if has == [True] and not above:
            bad = "a constant above one is let through"
        elif has == [True] and v != NONE and not (
                excluded(st.facts, 1.) and excluded(st.facts, 1.0005)):
            bad = "a constant of one, with which no other term fits, is " \
                "let through"
        if v != NONE and not contains(v, lambda t: t == hmap):
            bad = "returns %s" % shown(v, 60)
        for ev in flat_events(st.events):
            if ev.kind == "delitem" and not (
                    ev.args[1][0] == "g" and
                    ev.args[1][1].endswith(".EMPTY_HV")):
                bad = "removes %s" % shown(ev.args[1], 60)
    chk.ob("dropped-only-if-true", f, "simplified away", n > 0 and bad is None,
           bad, line=line)

    split(chk)
    f, eng, outs = outcomes(chk, M + "PosynomialInequality._gen_unsubbed")
    bad, n = None, 0
    for st, v in outs.ret:
        n += 1
        simplified = [ev for ev in flat_events(st.events)
                      if ev.kind == "call" and ev.args[0][0] == "attr"
                      and ev.args[0][2] == "_simplify_posy_ineq"]
        holds = any(contains(x, lambda t: t[0] == "call" and t[1][0] == "attr"
                             and t[1][2] == "_simplify_posy_ineq")
                    for x in held(st, v))
        if not holds and not none_or_empty(st.facts):
            bad = "the inequality is dropped" + each.why(st.facts)
        if not simplified:
            bad = "constants are not moved to the right"
        for ev in simplified:
            cov = collected(
                st, st.events, ev.args[1][0] if ev.args[1] else NONE,
                lambda t: t == ("attr", ("p", "p_lt"), "hmap"),
                also=lambda ev: ev.kind == "setitem" and contains(
                    ev.args[1], P("p_lt")))
            if cov.problems:
                bad = cov.problems[0][1]
            if not cov.covering:
                chk.notes.append("undecided: how the terms are divided")
    chk.ob("dropped-only-if-true", f, "posynomial over monomial",
           n > 0 and bad is None, bad)

    f, eng, outs = outcomes(chk, M + "MonomialEquality._gen_unsubbed")
    bad, n = None, 0
    for st, v in outs.ret:
        n += 1
        orders = set()
        parts = list(held(st, v))
        for ev in flat_events(st.events):   # added to what is returned
            if ev.kind == "call" and ev.args[0][0] == "attr" and \
                    ev.args[0][1] == v and ev.args[0][2] in (
                        "extend", "append"):
                parts.extend(ev.args[1])
        for x in parts:
            for t in subterms(x):
                if t[0] == "call" and t[1][-1] == "_gen_unsubbed":
                    a = [y for y in t[2] if y in (("p", "left"),
                                                  ("p", "right"))]
                    orders.add(tuple(y[1] for y in a))
        if orders != {("left", "right"), ("right", "left")}:
            bad = "an equality is not kept as both inequalities (%s)" % \
                sorted(orders)
    chk.ob("equality-both-ways", f, "both inequalities", n > 0 and bad is None,
           bad)

    f, eng, outs = outcomes(chk, M + "MonomialEquality.as_hmapslt1")

    def base(t):
        return t[0] == "call" and t[1][-1] == "as_hmapslt1" and \
            t[2][-1:] == (("p", "substitutions"),)
    covs, marks = [], []
    for st, v in outs.ret:
        covs.append(collected(st, st.events, v, base))
        marks.append(each.Coverage(base, lambda ev: ev.kind == "set" and
                                   ev.args[1] == "from_meq" and
                                   ev.args[2] == K(True)).run(st, st.events))
    all_through(chk, "every-element", f, "hmaps of an equality", covs)
    all_through(chk, "every-element", f, "hmaps marked as an equality's",
                marks)

    f, eng, outs = outcomes(chk, M + "SignomialInequality.as_hmapslt1")
    bad, n = None, 0
    for st, v in outs.ret:
        n += 1
        pn = [t for ev in flat_events(st.events) for a in ev.args
              if isinstance(a, tuple) for t in subterms(a)
              if t[0] == "call" and t[1][-1] == "posy_negy"]
        posy, negy = [("sub", pn[0], K(i)) for i in (0, 1)] if pn else (0, 0)
        if v[0] == "call" and v[1][-1] == "as_hmapslt1":
            made = v[1][1]
            want = ((posy, K("<="), negy), (negy, K(">="), posy))
            if not (made[0] == "new" and made[1].endswith(
                    "PosynomialInequality") and strip(made[2]) in
                    map(strip, want)):
                bad = "the posynomial form is %s" % shown(made, 100)
            continue
        zero = any(b and t[0] in ("is", "cmp") and strip(posy) in map(
            strip, t[1:] if t[0] == "is" else t[2:]) and K(0) in t
            for t, b in st.facts.items() if posy)
        if not zero:
            bad = "returns %s although something must hold%s" % (
                shown(v, 60), each.why(st.facts))
    chk.ob("dropped-only-if-true", f, "signomial inequality",
           n > 0 and bad is None, bad)


def held(st, v):
    "A value and what its collections hold."
    yield v
    for o in feeding(st, v):
        for e in st.objs.get(o[2], ()):
            yield from (t for t in e[1:-1])


def number(t, const):
    "The value of a term for a value of the constant, or None."
    if is_const(t):
        return t[2] if isinstance(t[2], (int, float)) else None
    if t[0] == "sub" and t[1] == ("p", "hmap"):
        return const
    if t[0] == "attr" and t[2] == "feastol":
        return 1e-3
    if t[0] == "neg":
        v = number(t[1], const)
        return None if v is None else -v
    if t[0] == "bin" and t[1] in "+-*/":
        a, b = number(t[2], const), number(t[3], const)
        if a is None or b is None or t[1] == "/" and not b:
            return None
        return {"+": a + b, "-": a - b, "*": a*b,
                "/": a/b if b else None}[t[1]]
    return None


def excluded(facts, const):
    "The path is not taken for this value of the constant."
    for t, b in facts.items():
        if t[0] == "cmp" and t[1] in ("<", "<=", "=="):
            x, y = number(t[2], const), number(t[3], const)
            if x is not None and y is not None and b != {
                    "<": x < y, "<=": x <= y, "==": x == y}[t[1]]:
                return True
    return False


def rekeyed(chk):
    """A map whose terms are rewritten under other exponents while it is gone
    through: an entry written over another one that was still to be read, or
    removed along with it, is a term lost."""
    n = 0
    for r in everything(chk):
        bad, line = None, None
        for st in r.states:
            for loop in each.all_loops(st.events):
                it = src = loop.args[0]
                if it[0] in ("comp", "while"):
                    continue
                if it[0] == "obj":      # a snapshot of its keys
                    ents = st.objs.get(it[2], ())
                    if len(ents) != 1 or ents[0][0] != "splat":
                        continue
                    src = ents[0][1]
                for p in loop.args[2]:
                    for e in flat_events(p[1]):
                        if e.kind != "setitem" or e.args[1][0] != "bin" or \
                                not contains(e.args[1], lambda t: t[0] in (
                                    "elem", "key", "val")):
                            continue
                        n += 1
                        if over(src, lambda t: t == e.args[0]):
                            bad, line = "the terms of %s are written over " \
                                "each other as they are divided" % shown(
                                    e.args[0], 60), e.line
        if bad:
            chk.ob("every-element", r.func, "terms rewritten in place", False,
                   bad, line=line)
    chk.ob("every-element", "gpkit", "%i rewritings of terms" % n, n > 0,
           "nothing rewrites a term") if n else chk.notes.append(
               "undecided: no loop rewrites the exponents of a map")


# -------------------------------------------------------- programs ----------
def programs(chk):
    G = "gpkit.constraints.gp.GeometricProgram."
    f, eng, outs = outcomes(chk, G + "__init__")

    def slt1(t):
        return t[0] == "call" and t[1][-1] == "as_hmapslt1" and \
            contains(t, P("constraints"))
    covs, first = [], None
    for st, v in outs.ret:
        hm = st.heap.get((SELF, ".hmaps"))
        if hm is None:
            continue
        cov = collected(st, st.events, hm, slt1)
        n = None
        for t in held(st, hm):
            n = n or each.narrowed(t, P("constraints"))
        if n:
            cov.problems.append((None, "only some constraints are used: %s"
                                 % shown(n, 80)))
        covs.append(cov)
        ents = st.objs.get(hm[2], ()) if hm[0] == "obj" else ()
        if ents and not contains(ents[0][1], P("cost")):
            first = "the first is %s, not the cost" % shown(ents[0][1], 60)
    all_through(chk, "every-element", f, "self.hmaps", covs)
    chk.ob("cost-first", f, "self.hmaps", first is None, first)

    f, eng, outs = outcomes(chk, G + "gen")
    hmaps = selfattr("hmaps")
    for attr in ("k", "m_idxs", "p_idxs", "exps", "cs"):
        covs = []
        for st, _ in outs.ret:
            v = st.heap.get((SELF, "." + attr), NONE)
            covs.append(collected(st, st.events, v, hmaps))
        all_through(chk, "every-element", f, "self." + attr, covs)
    covs, dataf = [], {0: [], 1: [], 2: []}
    for st, _ in outs.ret:
        vl = st.heap.get((SELF, ".varlocs"), NONE)

        def into_varlocs(ev, vl=vl):
            if ev.kind in ("setitem", "append", "extend"):
                return contains(ev.args[0], lambda t: t == vl)
            return ev.kind == "call" and ev.args[0][0] == "attr" and \
                ev.args[0][2] in ("append", "extend", "add") and contains(
                    ev.args[0][1], lambda t: t == vl)
        covs.append(each.Coverage(hmaps, into_varlocs,
                                  empty_ok=True).run(st, st.events))
        for t in terms_of(outs):
            if t[0] == "new" and t[1].endswith("CootMatrix"):
                args = list(t[2]) + [v for k, v in t[3]]
                for i, a in enumerate(args[:3]):
                    dataf[i].append(collected(
                        st, st.events, a, lambda x, vl=vl: x == vl))
        vi = st.heap.get((SELF, ".varidxs"), NONE)
        covs.append(collected(st, st.events, vi, lambda x, vl=vl: x == vl))
    all_through(chk, "every-element", f, "places of every variable", covs)
    for i, name in enumerate(("rows", "columns", "values")):
        all_through(chk, "every-element", f, "matrix " + name, dataf[i])
    aligned(chk, f, outs)

    f, eng, outs = outcomes(
        chk, "gpkit.constraints.sgp.SequentialGeometricProgram.__init__")

    def flat(t):
        return t[0] == "call" and t[1] == ("attr", ("p", "model"), "flat") or \
            t[0] == "call" and t[1][0] == "g" and t[1][1].endswith(
                ".flatiter") and t[2][:1] == (("p", "model"),)

    def approx(t):
        return t[0] == "call" and t[1][-1] == "as_hmapslt1" and contains(
            t, lambda x: x[0] == "attr" and x[2] == "as_gpconstr")
    gpc, sol, apc = [], [], []
    for st, _ in outs.ret:
        news = [t for ev in flat_events(st.events) if ev.kind == "new"
                for t in ev.args[:1] if t[1].endswith(".GeometricProgram")]
        if not news:
            continue
        given = arg(news[-1], 1, "constraints")
        gpc.append(collected(st, st.events, given, flat))
        apc.append(collected(st, st.events, given, approx))
        sg = st.heap.get((SELF, ".sgpconstraints"), NONE)
        gp = st.heap.get((SELF, ".gpconstraints"), NONE)
        sol.append(collected(st, st.events, ("tuple", (sg, gp)), flat))
        sol.append(collected(
            st, st.events, st.heap.get((SELF, ".approxconstraints"), NONE),
            approx))
    all_through(chk, "every-element", f, "constraints of the first GP", gpc)
    all_through(chk, "every-element", f, "approximations of a constraint", apc)
    all_through(chk, "every-element", f, "constraints kept for later", sol)
    updates.modifiable(chk, f, outs)

    f, eng, outs = outcomes(
        chk, "gpkit.constraints.sgp.SequentialGeometricProgram.gp")
    covs, hm = [], []

    def sets_hmap(attrs):
        def delivers(ev):
            return ev.kind == "setitem" and ev.args[0][0] == "attr" and \
                ev.args[0][2] in attrs
        return delivers
    for st, v in outs.ret:
        if not any(ev.kind == "loop" for ev in st.events):
            if not any(t == ("p", "x0") and b is False
                       for t, b in st.facts.items()):
                covs.append(each.Coverage(lambda t: False, each.yields))
            continue
        for name in ("hmaps", "exps", "cs"):
            covs.append(each.Coverage(
                selfattr("sgpconstraints"), sets_hmap((name,))).run(
                    st, st.events))
    all_through(chk, "every-element", f, "approximations updated", covs)
    updates.updated(chk, f, outs)

    # programs are given all of a model
    n = 0
    for g in chk.prog.all_functions():
        q = g.qual
        if q.endswith(".<locals>.programfn") or q.endswith("Model.debug"):
            _, eng, outs = outcomes(chk, q)
            bad = None
            for t in terms_of(outs):
                if t[0] == "call" and t[1][-1] == "program" or \
                        t[0] == "new" and t[1].endswith("Program"):
                    n += 1
                    a = arg(t, 1, "constraints")
                    if a is None or each.narrowed(a, P("self")) or \
                            not contains(a, P("self")):
                        bad = "a program is made from %s" % shown(a, 60)
            chk.ob("every-element", g, "the model's program", bad is None, bad)
    if not n:
        raise AnalysisBroken("no function makes programs")


ORDERLESS = ("list", "tuple", "enumerate", "iter", "asarray", "array")


def reordered(a, b):
    "One of two sources is gone through in another order, or in part."
    def plain(t):
        t = strip(t)
        while t[0] == "call" and t[1][0] in ("b", "g") and t[2] and \
                t[1][-1].rpartition(".")[2] in ORDERLESS:
            t = strip(t[2][0])
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
                "keys", "items", "values") and not t[2]:
            t = strip(t[1][1])
        return t
    a, b = plain(a), plain(b)
    if a == b:
        return None
    for x, y in ((a, b), (b, a)):
        if x[0] in ("call", "sub") and contains(x, lambda t: t == y) and \
                y[0] in ("elem", "val", "sub", "attr"):
            return x
    return None


def aligned(chk, f, outs):
    """The parts of a program's data that belong together by position are put
    together from the same things in the same order."""
    bad = None
    for st, _ in outs.ret:
        def ents(t):
            return st.objs.get(t[2], ()) if t[0] == "obj" else ()

        def spread(t):
            return [e[1] for e in ents(t) if e[0] == "splat"]
        got = {a: st.heap.get((SELF, "." + a), NONE)
               for a in ("cs", "exps", "m_idxs")}
        for a in spread(got["cs"]):
            for b in spread(got["exps"]):
                r = reordered(a, b)
                if r:
                    bad = ("exponents and coefficients are taken in"
                           " different orders: %s" % shown(r, 60))
        for e in ents(got["m_idxs"]):
            t = e[1]
            if e[0] != "item" or t[0] != "call" or t[1] != ("b", "slice") \
                    or len(t[2]) != 2:
                continue
            lo, hi = t[2]
            counts = [x for x in subterms(hi) if x[0] == "call" and x[1] ==
                      ("b", "len") or x[0] in ("elem", "sub")]
            if hi[0] == "bin" and counts and any(
                    algebra.equal(hi, ("bin", op, ("bin", "+", lo, n), K(1)))
                    for n in counts for op in ("+", "-")) or hi == lo:
                bad = ("a posynomial's place in the list of monomials is %s"
                       % shown(t, 100))
        for t in terms_of(outs):
            if t[0] != "new" or not t[1].endswith("CootMatrix"):
                continue
            row, _, data = (arg(t, i, n) for i, n in enumerate(
                ("row", "col", "data")))
            if row is None or data is None:
                continue
            for a in spread(row):
                for e in ents(data):
                    if e[0] == "item" and e[-1]:
                        r = reordered(a, e[-1][-1][0])
                        if r:
                            bad = ("rows and values of the matrix are taken"
                                   " in different orders: %s" % shown(r, 60))
    chk.ob("program-aligned", f, "the program's data", bad is None, bad)


def arg(t, i, name):
    args = t[2]
    if len(args) > i:
        return args[i]
    return dict(t[3]).get(name)


def split(chk):
    "A term of a signomial is on neither side only if it is exactly zero."
    f, eng, outs = outcomes(chk, M + "Signomial.posy_negy")
    bad, n = None, 0
    for st, v in outs.ret:
        for ev in st.events:
            if ev.kind != "loop" or ev.args[0][0] == "comp" or not contains(
                    ev.args[0], lambda t: t[0] == "attr" and t[2] == "hmap"):
                continue
            for p in ev.args[2]:
                if p[0] == "raise":
                    continue
                n += 1
                if any(e.kind == "setitem" for e in flat_events(p[1])):
                    continue
                why = not_zero(dict(p[2]))
                if why:
                    bad = "a term is left out %s" % why
    if not n:
        chk.notes.append("undecided: how a signomial is split")
    chk.ob("dropped-only-if-true", f, "parts of a signomial", bad is None, bad)


def not_zero(facts):
    "What a path does not know that makes a left-out coefficient zero."
    low = high = False
    for t, b in facts.items():
        while t[0] == "not":
            t, b = t[1], not b
        if t[0] == "cmp" and t[1] == "==" and b and K(0) in t[2:4]:
            return None
        if t[0] in ("elem", "val", "sub") and not b:
            return None
        if t[0] != "cmp" or t[1] not in ("<", "<="):
            continue
        lo, hi = (t[2], t[3]) if b else (t[3], t[2])
        if is_const(lo) and is_number(lo) and lo[2] >= 0 and \
                not is_const(hi):
            low = True
        if is_const(hi) and is_number(hi) and hi[2] <= 0 and \
                not is_const(lo):
            high = True
    if low and high:
        return None
    return "although it need not be zero%s" % each.why(facts)


def is_number(t):
    return isinstance(t[2], (int, float)) and not isinstance(t[2], bool)


# -------------------------------------------------------- back ends ---------
def solvers(chk):
    back = backends(chk.prog)
    for mod, f in sorted(back.items()):
        {"gpkit.solvers.cvxopt": cvxopt, "gpkit.solvers.mosek_conif": conif,
         "gpkit.solvers.mosek_cli": cli}.get(mod, lambda c, f: None)(chk, f)


def second_half(fs):
    "The path knows it is at the second half of an equality given as such."
    got = {}
    for t, b in fs.items():
        if t[0] == "in" and t[2][0] == "attr" and \
                t[2][1] == ("p", "meq_idxs"):
            got[t[2][2]] = b
    return got.get("all") is True and got.get("first_half") is False and \
        fs.get(("p", "use_leqs")) is True


def cvxopt(chk, f):
    eng = Engine(chk.prog, Sum(chk.prog))
    outs = eng.run(f)
    chk.analysed(eng.stats["functions"])
    covs, pairs = [], None
    args, more = [], set()
    for st, v in outs.ret:
        given = [t for k, t in st.heap.items() if k[0] == ("p", "kwargs")]
        for ev in flat_events(st.events):
            if ev.kind == "call" and ev.args[0][0] == "g" and \
                    ev.args[0][1] == "cvxopt.solvers.gp":
                given += list(ev.args[1]) + [x for _, x in ev.args[2]]
        args.append((st, given))
        more |= feeding(st, *given)     # what is empty need not be given
    for st, given in args:
        covs.append(collected(st, st.events, ("tuple", tuple(given)), P("k"),
                              exempt=second_half, more=more))
        rows = {"A": set(), "c": set()}
        for g in given:
            for x in held(st, g):
                for t in subterms(x):
                    if t[0] == "sub":
                        name = [n for n in "Ac" if contains(t[1], P(n))]
                        ix = t[2][1][0] if t[2][0] == "tuple" else t[2]
                        if name and ix[0] == "obj":
                            rows[name[0]].add(ix)
        if rows["A"] != rows["c"]:
            pairs = "rows of A and entries of c are not selected alike"
    all_through(chk, "every-element", f, "posynomials given to the solver",
                covs)
    chk.ob("rows-match", f, "A and c", pairs is None, pairs)
    lost(chk, f, outs)
    # each selection that holds anything is given
    bad, n = None, 0
    for key, name in (("A", "b"), ("G", "h")):
        for st, v in outs.ret:
            locs = {k[1][1] for k in st.heap if k[0] == ("p", "kwargs")
                    and isinstance(k[1], tuple)}
            n += 1
            if (K(key) in locs) != (K(name) in locs):
                bad = "%s and %s are not given together" % (key, name)
    chk.ob("rows-match", f, "matrix and right-hand side", n and bad is None,
           bad)


def lost(chk, f, outs):
    "Entries of the problem data are not filtered or cut."
    bad, line = None, None

    split = f.module.name.endswith("mosek_conif")

    def data(t):
        return t in (("p", "A"), ("p", "c"), ("p", "p_idxs")) or \
            t == ("p", "k") and not split or \
            t[0] == "attr" and t[2] in ("data", "row", "col") and contains(
                t, P("A"))
    for st, v in outs.ret:
        for ev in each.all_loops(st.events):
            if ev.args[0][0] != "comp":
                continue
            src = each.Coverage(data, lambda e: False).comp_src(ev, st)
            if src and any(p[0] == "skip" for p in ev.args[2]):
                if split:
                    continue    # the linear/exponential split, judged apart
                bad, line = "entries are left out", ev.line
            if src == "part":
                bad, line = "only part of the entries is used", ev.line
    chk.ob("every-element", f, "entries of the problem data", bad is None, bad,
           line=line)


def conif(chk, f):
    eng = Engine(chk.prog, Sum(chk.prog))
    outs = eng.run(f)
    chk.analysed(eng.stats["functions"])

    def rest_of_k(t):
        return t[0] == "sub" and t[1] == ("p", "k") and \
            t[2] == ("slice", K(1), NONE, NONE) or t == ("p", "k")
    covs, bad, n = [], None, 0
    picked, given, more = set(), [], set()
    for st, v in outs.ret:
        puts = []
        for ev in flat_events(st.events):
            if ev.kind == "call" and ev.args[0][0] == "attr" and \
                    ev.args[0][2].startswith("put"):
                puts += list(ev.args[1])
        given.append((st, puts))
        more |= feeding(st, *puts)
        for ev in each.all_loops(st.events):    # rows selected by membership
            if ev.args[0][0] == "comp" and ev.args[0][1] in more:
                for p in ev.args[2]:
                    for t, b in p[2]:
                        if t[0] == "in" and b and p[0] == "next":
                            more |= feeding(st, t[2])
    for st, puts in given:
        split = [t for p in puts for x in held(st, p) for t in subterms(x)
                 if t[0] == "sub"]
        covs.append(collected(st, st.events, ("tuple", tuple(puts)),
                              rest_of_k, more=more))
        n += 1
        picked |= {t[2][1][0] if t[2][0] == "tuple" else t[2] for t in split
                  if (t[2][0] == "tuple" and t[2][1][0][0] == "obj")
                  or t[2][0] == "obj"}
    for st, v in outs.ret:
        # the remainder is a mask of ones cleared where rows were selected
        for s, x in [(e.args[0], e.args[1:]) for e in flat_events(st.events)
                     if e.kind == "setitem"]:
            if s[0] == "call" and s[1][-1] == "numpy.ones":
                if x[1] != K(False) or x[0] not in picked:
                    bad = "the remaining rows are not the complement of the" \
                        " linear ones"
    all_through(chk, "every-element", f, "posynomials given to the solver",
                covs)
    chk.ob("rows-match", f, "linear and exponential rows",
           n > 0 and bad is None, bad)
    lost(chk, f, outs)


def cli(chk, f):
    "The function that writes the problem file writes all of it."
    n = 0
    for g in chk.prog.all_functions():
        if g.module is not f.module or not {"c", "A", "p_idxs"} <= set(
                g.all_params()) or g is f:
            continue
        n += 1
        eng = Engine(chk.prog, Sum(chk.prog))
        outs = eng.run(g)
        chk.analysed(eng.stats["functions"])
        for what, src in (("c", P("c")), ("p_idxs", P("p_idxs")),
                          ("A", lambda t: t[0] == "attr" and t[2] in (
                              "row", "col", "data") and
                           t[1] == ("p", "A"))):
            covs = []
            for st, v in outs.ret:
                wrote = [a for ev in flat_events(st.events)
                         if ev.kind == "call" and ev.args[0][0] == "attr"
                         and ev.args[0][2] in ("write", "writelines")
                         for a in ev.args[1]]
                covs.append(collected(
                    st, st.events, ("tuple", tuple(wrote)), src,
                    also=lambda ev: ev.kind == "call" and
                    ev.args[0][0] == "attr" and ev.args[0][2] == "write"))
            all_through(chk, "every-element", g, "%s written" % what, covs)
    if not n:
        eng = Engine(chk.prog, Sum(chk.prog))
        lost(chk, f, eng.run(f))


# -------------------------------------------------------- derived sets ------
def derived_sets(chk):
    """Sets made from other constraints hand all of them to ConstraintSet, as
    they are or relaxed one by one."""
    prog = chk.prog
    n = 0
    for q in sorted(prog.functions):
        f = prog.functions[q]
        if f.name != "__init__" or f.cls is None:
            continue
        if not prog.is_subclass(f.cls.qual,
                                "gpkit.constraints.set.ConstraintSet"):
            continue
        if f.cls.qual == "gpkit.constraints.set.ConstraintSet":
            continue
        params = [p for p in f.all_params()
                  if p in ("constraints", "original_constraints")]
        if not params:
            continue
        n += 1
        src = P(params[0])

        def whole(t, src=src):
            return src(t) or t[0] == "new" and len(t[2]) == 1 and src(t[2][0])

        def given(t, src=src, whole=whole):
            return whole(t) or t[0] == "call" and t[1][0] == "attr" and \
                t[1][2] == "flat" and whole(t[1][1]) or \
                t[0] == "call" and t[1][0] == "g" and \
                t[1][1].endswith(".flatiter") and whole(t[2][0])
        eng = Engine(prog, Sum(prog))
        outs = eng.run(f)
        chk.analysed(eng.stats["functions"])
        covs = []
        for st, _ in outs.ret:
            args = []
            for ev in flat_events(st.events):
                if ev.kind == "call" and ev.args[0][-1] == "__init__":
                    args += [a for a in ev.args[1] if a != SELF]
            flat = ("tuple", tuple(args))
            cov = collected(st, st.events, flat, given)
            if any(whole(t) for x in held(st, flat) for t in subterms(x)):
                cov.covering += 1
            # a model defined by setup, or no constraints at all
            def of_setup(t):
                return contains(t, lambda x: x[0] == "attr" and
                                x[2] == "setup")
            if any(map(of_setup, args)) or any(
                    b is False and t[0] in ("call", "sub", "p") and
                    (src(t) or of_setup(t)) or
                    t[0] == "is" and src(t[1]) and b
                    for t, b in st.facts.items()):
                cov.covering += 1
            covs.append(cov)
        all_through(chk, "every-element", f, "constraints handed over", covs)
    if n < 4:
        raise AnalysisBroken("found only %i derived constraint sets" % n)

    f, eng, outs = outcomes(chk, "gpkit.constraints.bounded.varkey_bounds")
    covs, sides = [], None
    for st, v in outs.ret:
        covs.append(collected(st, st.events, v, P("varkeys")))
    for which in ("lower", "upper"):
        seen = skipped = False
        for st, v in outs.ret:
            for ev in each.all_loops(st.events):
                for p in ev.args[2]:
                    fd = dict(p[2])
                    has = any(e.kind in ("append", "extend") and any(
                        contains(a, P(which)) for a in e.args[1:])
                        for e in flat_events(p[1]))
                    if has:
                        seen = True
                    elif p[0] in ("next", "continue") and \
                            fd.get(("p", which)) is not False:
                        skipped = True
        if not seen or skipped:
            sides = "the %s bound is left out" % which
    all_through(chk, "every-element", f, "variables bounded", covs)
    chk.ob("both-bounds", f, "lower and upper", sides is None, sides)

    f, eng, outs = outcomes(chk, "gpkit.nomials.math."
                            "ScalarSingleEquationConstraint.relaxed")
    bad, n = None, 0
    for st, v in outs.ret:
        n += 1
        ents = list(v[1]) if v[0] == "tuple" else [
            e[1] for e in st.objs.get(v[2], ())] if v[0] == "obj" else [v]
        two = len({strip(e) for e in ents}) == 2
        eq = any(b and t[0] == "cmp" and t[1] == "==" and K("=") in t
                 for t, b in st.facts.items())
        if not ents or eq and not two:
            bad = "an equality is relaxed to %i inequalities" % len(ents)
        for e in ents:
            for side in ("left", "right"):
                if not contains(e, selfattr(side)):
                    bad = "a relaxed inequality has no %s side" % side
    chk.ob("equality-both-ways", f, "relaxed constraint", n > 0 and
           bad is None, bad)
