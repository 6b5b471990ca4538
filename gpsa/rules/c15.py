"""C15: guard analysis of warnings.  For a generic constraint, bound or
relaxation variable, each path of the post-processing is compared with the
threshold test it has established: it warns exactly when the value is at or
beyond the stated threshold (comparison, orientation and the formula compared
are all part of the rule), and no path leaves an element untested.  Warnings,
once recorded, may only be added to: every write of a warnings entry must
happen where there was none or carry the old one, points of a sweep are lined
up, and the table goes through every recorded category and message."""
import ast

from ..flow import NONE, Engine, K, Spec, contains, flat_events, is_const, \
    strip, subterms
from ..model import AnalysisBroken, walk_shallow
from . import algebra, each
from .c10 import P, SELF, Sum, all_through, outcomes, selfattr
from .c14 import resolve
from .common import judged, shown

TECHNIQUE = "guard analysis of warning sites; provenance of warning entries"
ASSUMPTIONS = ["a path that raises reports by raising"]
C = "gpkit.constraints."
RESULT = ("p", "result")


def run(chk):
    tight(chk)
    loose(chk)
    bounded(chk)
    relaxed(chk)
    recorded(chk)
    lined_up(chk)
    displayed(chk)
    chk.need("threshold", 8)
    chk.need("caller-threshold", 4)
    chk.need("kept", 3)
    chk.need("shown", 3)


# ------------------------------------------------------------- thresholds ---
def warns(ev):
    "The event records a warning in the result."
    return ev.kind == "call" and ev.args[0][0] == "g" and \
        ev.args[0][1].endswith(".appendsolwarning") and (
            RESULT in ev.args[1] or ("result", RESULT) in ev.args[2])


def ordered(facts):
    """Orders known on a path, with strictness: (smaller, larger, strict,
    decided) where decided tells `at least` from `below`."""
    for t, b in facts:
        if t[0] == "not":
            t, b = t[1], not b
        if t[0] == "cmp" and t[1] in ("<", "<="):
            if b:
                yield t[2], t[3], t[1] == "<"
            else:
                yield t[3], t[2], t[1] == "<="


def at_least(facts, value, bound):
    """True: value >= bound is known; False: value < bound is; 'strict': only
    value > bound, 'lax': only value <= bound; None: nothing."""
    for lo, hi, strict in ordered(facts):
        if bound(lo) and value(hi):
            return "strict" if strict else True
        if value(lo) and bound(hi):
            return False if strict else "lax"
    return None


SAID = {"strict": "only a value beyond the threshold, not one at it",
        "lax": "a value at the threshold does not", None: "the value is"
        " not compared with the threshold"}


def judge(facts, warned, value, bound):
    "What is wrong with a path that does, or does not, warn."
    got = at_least(facts, value, bound)
    if got is True and not warned:
        return "no warning although the threshold is reached"
    if got is False and warned:
        return "a warning although the threshold is not reached"
    if got in ("strict", "lax"):
        return "a value at the threshold is not reported"
    if got is None:
        return "%s without the value being compared with the threshold" % (
            "a warning is given" if warned else "an element is passed over")
    return None


class InTo(Sum):
    inlined = (C + "relax.ConstraintsRelaxedEqually.check_relaxed",
               C + "relax.ConstraintsRelaxed.check_relaxed",
               C + "relax.ConstantsRelaxed.check_relaxed",
               C + "bounded.Bounded.check_boundaries")


def processing(chk, cls):
    f = chk.prog.method(C + cls, "process_result")
    eng = Engine(chk.prog, InTo(chk.prog))
    outs = eng.run(f)
    chk.analysed(eng.stats["functions"])
    return f, outs


def flat_self(t):
    return t[0] == "call" and (
        t[1] == ("attr", SELF, "flat") or t[1][0] == "g" and
        t[1][1].endswith(".flatiter") and bool(t[2]) and t[2][0] == SELF)


def loops_over(st, is_src):
    for ev in each.all_loops(st.events):
        if each.over_in(st, ev.args[0], is_src) == "whole":
            yield ev


def element_rule(chk, f, outs, name, is_src, value, bound):
    bad, line, n = None, None, 0
    for st, _ in outs.ret:
        seen = False
        for ev in loops_over(st, is_src):
            for p in ev.args[2]:
                warned = any(warns(e) for e in flat_events(p[1]))
                if p[0] == "raise" and warned:
                    continue
                n += 1
                why = judge(p[2], warned, value, bound)
                if why:
                    bad, line = why, ev.line
                if p[0] in ("break", "return") and p[0] != "raise":
                    bad, line = "the elements after one are not looked at", \
                        ev.line
            if any(warns(e) for p in ev.args[2] for e in flat_events(p[1])):
                seen = True
        if not seen:
            bad = bad or "a path gives no element a warning"
    chk.ob("threshold", f, name, bad is None and n > 0,
           bad or "no elements are looked at", line=line)


def own(name):
    return lambda t: t == ("attr", SELF, name)


def side(t, which):
    return contains(t, lambda x: x[0] == "attr" and x[2] == which and
                    contains(x[1], lambda y: y[0] == "elem"))


def tight(chk):
    f, outs = processing(chk, "tight.Tight")

    def as_sides(t):
        "The value of a side stands for it."
        if t[0] == "attr" and t[2] in ("value", "magnitude") or \
                t[0] == "call" and t[1][0] == "attr" and \
                t[1][2] in ("sub", "to"):
            for w in ("left", "right"):
                if side(t, w) and not side(t, {"left": "right",
                                               "right": "left"}[w]):
                    return ("p", "<%s>" % w)
        return None
    left, right = ("p", "<left>"), ("p", "<right>")
    want = ("call", ("b", "abs"), (("bin", "-", K(1), (
        "bin", "/", left, right)),), ())
    other = ("call", ("b", "abs"), (("bin", "-", K(1), (
        "bin", "/", right, left)),), ())

    def value(t):
        return algebra.equal(t, want, as_sides) or \
            algebra.equal(t, other, as_sides)
    element_rule(chk, f, outs, "a tight constraint's relative difference",
                 flat_self, value, own("reltol"))
    threshold_given(chk, "tight.Tight", "reltol", ("p", "reltol"))


def loose(chk):
    f, outs = processing(chk, "loose.Loose")

    def value(t):
        if not contains(t, lambda x: x == K("constraints")) or contains(
                t, lambda x: x[0] == "bin"):
            return False
        keys = [x[2][0] for x in subterms(t) if x[0] == "call" and x[2] and
                x[1][0] == "attr" and x[1][2] in ("get", "pop") and
                contains(x[1][1], lambda y: y == K("constraints"))] + [
                    x[2] for x in subterms(t) if x[0] == "sub" and
                    contains(x[1], lambda y: y == K("constraints"))]
        if keys:                 # looked up as itself, as it was stored
            return any(k[0] == "elem" for k in keys)
        return contains(t, lambda x: x[0] == "elem")
    element_rule(chk, f, outs, "a loose constraint's sensitivity",
                 flat_self, value, own("senstol"))
    threshold_given(chk, "loose.Loose", "senstol", ("p", "senstol"))


def threshold_given(chk, cls, attr, param):
    "The caller's threshold is the one that is kept."
    f = chk.prog.method(C + cls, "__init__")
    eng = Engine(chk.prog, Sum(chk.prog))
    outs = eng.run(f)
    chk.analysed(eng.stats["functions"])
    bad = None
    for st, _ in outs.ret:
        if st.facts.get(param) is False or any(
                t[0] == "is" and t[1] == param and t[2] == NONE and b
                for t, b in st.facts.items()):
            continue
        got = st.heap.get((SELF, "." + attr))
        if got != param and not (got and got[0] == "call" and
                                 param in got[2]):
            bad = "a given %s is replaced by %s" % (
                attr, shown(got, 60) if got else "the default")
    chk.ob("caller-threshold", f, attr, bad is None and bool(outs.ret), bad)


# ---------------------------------------------------------- bounded models --
def bounded(chk):
    f, outs = processing(chk, "bounded.Bounded")
    source = own("bound_varkeys")
    lower, upper = ("attr", SELF, "lowerbound"), ("attr", SELF, "upperbound")
    tests = {}
    for st, _ in outs.ret:
        found = False
        for ev in loops_over(st, source):
            found = True
            for p in ev.args[2]:
                if p[0] == "raise":
                    continue
                facts = dict(p[2])
                added = [adds(e, lower, upper) for e in flat_events(p[1])]
                for which, bound in (("lower", lower), ("upper", upper)):
                    if facts.get(bound) is False:
                        continue
                    for what in ("sensitive", "near"):
                        key = "%s at the %s bound" % (what, which)
                        tests.setdefault(key, None)
                        why = bound_rule(p[2], (which, what) in added, which,
                                         what, bound)
                        if why:
                            tests[key] = (why, ev.line)
                if p[0] in ("break", "return"):
                    tests["all variables"] = ("not all are looked at",
                                              ev.line)
        if not found:
            tests["all variables"] = ("they are not gone through", None)
    for key in ("sensitive at the lower bound", "near at the lower bound",
                "sensitive at the upper bound", "near at the upper bound",
                "all variables"):
        got = tests.get(key, None if key == "all variables" else
                        ("no path tests it", None))
        chk.ob("threshold", f, key, got is None, got and got[0],
               line=got and got[1])
    in_step(chk, f, outs, source)
    # each of them warns
    bad, n = None, 0
    for st, _ in outs.ret:
        for ev in each.all_loops(st.events):
            it = ev.args[0]
            if not any(warns(e) for p in ev.args[2]
                       for e in flat_events(p[1])):
                continue
            n += 1
            if not (it[0] == "call" and it[1][0] == "attr" and
                    it[1][2] in ("items", "keys") or it[0] in (
                        "new", "call", "obj")):
                bad = "only %s are reported" % shown(it, 60)
            if each.over(it, lambda t: t[0] in ("new", "call", "obj") and
                         contains(t, lambda x: x[0] in ("g", "obj") and
                                  "defaultdict" in str(x[1]) or
                                  x[0] == "obj" and x[1] == "dict")) \
                    == "part":
                bad = "only some bounds are reported"
            for p in ev.args[2]:
                if p[0] in ("next", "continue") and not any(
                        warns(e) for e in flat_events(p[1])):
                    bad = "a bound is passed over%s" % each.why(dict(p[2]))
                elif p[0] in ("break", "return"):
                    bad = "only the first bound is reported"
        if not n:
            bad = "a path reports nothing"
    chk.ob("threshold", f, "what rests on a bound is warned of",
           bad is None and n > 0, bad)
    for attr in ("lower", "upper"):
        threshold_given(chk, "bounded.Bounded", attr + "bound", ("p", attr))


def in_step(chk, f, outs, source):
    "Bounds looked up by position were made in the order of the variables."
    by_position = any(
        t[0] == "idx" and source(t[1]) for st, _ in outs.ret
        for ents in st.objs.values() for e in ents for x in e[1:]
        for t in (subterms(x) if isinstance(x, tuple) and x and
                  isinstance(x[0], str) else ()))
    init = chk.prog.method(C + "bounded.Bounded", "__init__")
    if init is None or not by_position:
        return
    eng = Engine(chk.prog, Sum(chk.prog))
    bad, n = None, 0
    for st, _ in eng.run(init).ret:
        kept = st.heap.get((SELF, ".bound_varkeys"))
        for e in flat_events(st.events):
            if kept is not None and e.kind == "call" and e.args[1] and \
                    e.args[0] == ("g", C + "bounded.varkey_bounds"):
                n += 1
                got = e.args[1][0]
                if got not in (kept, own("bound_varkeys") and (
                        "attr", SELF, "bound_varkeys")) and contains(
                            got, lambda t: t == kept or source(t)):
                    bad = ("the bounds are made in another order than the"
                           " variables are kept: %s" % shown(got, 60))
                elif got[0] == "obj" and got != kept:
                    bad = "the bounds are not those of the variables kept"
                for arg, attr in zip(e.args[1][1:3], ("upper", "lower")):
                    if contains(arg, lambda t, a=attr: t == (
                            "p", a) or t == ("attr", SELF, a + "bound")):
                        bad = "the lower and upper bounds change places"
    g = chk.prog.functions.get(C + "bounded.varkey_bounds")
    if g is not None and n:
        bad = bad or bounds_in_order(chk, g)
    if n:
        chk.ob("threshold", f, "bounds in step with their variables",
               bad is None, bad)


def bounds_in_order(chk, g):
    "The lower bound of a variable is made first, each on its own side."
    _, _, outs = outcomes(chk, g.qual)
    for st, _ in outs.ret:
        for ents in st.objs.values():
            kinds = []
            for e in ents:
                if e[0] != "item" or e[1][0] != "cmp":
                    continue
                op, a, b = e[1][1:4]
                if op in (">", ">="):
                    a, b = b, a
                if op not in ("<", "<=", ">", ">="):
                    continue
                for which in ("lower", "upper"):
                    at = [contains(x, lambda t: t == ("p", which))
                          for x in (a, b)]
                    if any(at):
                        kinds.append(which)
                        if at[0] != (which == "lower"):
                            return "the %s bound bounds the other side" % which
            if "upper" in kinds and "lower" in kinds[kinds.index("upper"):]:
                return ("the upper bound of a variable comes before its lower"
                        " bound")
    return None


def adds(ev, lower, upper):
    "(which bound, what about it) an event notes a variable under."
    if ev.kind == "call" and ev.args[0][0] == "attr" and \
            ev.args[0][2] in ("add", "append"):
        key = ev.args[0][1]
    elif ev.kind == "append":
        key = ev.args[0]
    else:
        return None
    which = "lower" if contains(key, lambda t: t == lower) else \
        "upper" if contains(key, lambda t: t == upper) else None
    what = "sensitive" if contains(key, lambda t: is_const(t) and isinstance(
        t[2], str) and "sensitive" in t[2]) else "near"
    return which, what


def bound_rule(facts, noted, which, what, bound):
    ends = (K(0),) if which == "lower" else (K(-1), K(1))

    if what == "sensitive":
        def value(t):
            return t[0] == "sub" and t[2] in ends or t[0] in (
                "sub", "call") and contains(t, lambda x: x[0] == "sub" and
                                            x[2] in ends and x[1] != NONE)
        return judge(facts, noted, value, own("sens_threshold"))

    def var(t):
        if t[0] == "sub" and contains(t[1], lambda x: x == K("variables")):
            return ("p", "<value>")
        return None
    v = ("p", "<value>")
    want = ("bin", "/", v, bound) if which == "lower" else \
        ("bin", "/", bound, v)
    want = ("call", ("b", "log"), (want,), ())

    def value(t):
        return algebra.equal(t, want, var)
    got = at_least(facts, own("logtol_threshold"), value)
    if got is True and noted or got is False and not noted:
        return None
    return judge_text(got, noted)


def judge_text(got, noted):
    if got is None:
        return "the value's distance from the bound is not tested"
    if got in ("strict", "lax"):
        return "a value at the threshold is not reported"
    return "reported exactly when it should not be"


# ------------------------------------------------------------- relaxations --
def relaxed(chk):
    f, eng, outs = outcomes(chk, C + "relax.get_relaxed")
    bad, n = None, 0
    limit = K(1.01)

    def pairs(t):
        return t[0] == "call" and t[1] == ("b", "zip") and \
            ("p", "relaxvals") in t[2] and ("p", "mapped_list") in t[2]

    def val(t):
        return t[0] == "sub" and t[2] == K(0) and t[1][0] == "elem"
    for st, v in outs.ret:
        n += 1
        if each.over(v, lambda t: pairs(t)) == "whole":
            src = v
        elif v[0] == "sub" and v[2][0] == "slice":
            src = v[1]
            lo, hi, step = v[2][1:]
            if lo not in (NONE, K(0)) or step != NONE or hi[0] != "idx":
                bad = "returns %s" % shown(v, 80)
            if at_least(st.facts.items(), lambda t: t == limit, val) not in (
                    True, "strict"):
                bad = ("elements are dropped although their value is not"
                       " known to be at most 1.01")
            if not close_to_most(st.facts.items(), val):
                bad = ("elements within a tenth of the largest relaxation"
                       " are dropped")
        elif v[0] == "obj":
            src = None
            chk.notes.append("get_relaxed builds its result in a way that is"
                             " not followed")
        else:
            bad, src = "returns %s" % shown(v, 80), None
        if src is not None:
            bad = bad or descending(eng, src, pairs)
        for ev in each.all_loops(st.events):
            if each.over(ev.args[0], pairs) != "whole":
                continue
            for p in ev.args[2]:
                if p[0] in ("next", "continue") and at_least(
                        p[2], lambda t: t == limit, val) in (
                            True,) and close_to_most(p[2], val):
                    bad = "an element that is not relaxed is returned"
                if p[0] == "break":
                    bad = "the elements after one are not looked at"
    chk.ob("threshold", f, "relaxations above 1.01", bad is None and n > 0,
           bad or "nothing is returned")
    G = C + "relax.get_relaxed"
    for cls, attr in (("ConstraintsRelaxedEqually", "relaxvar"),
                      ("ConstraintsRelaxed", "relaxvars"),
                      ("ConstantsRelaxed", "relaxvars")):
        f, outs = processing(chk, "relax." + cls)
        bad, line = None, None

        def got(t):
            return t[0] == "call" and t[1] == ("g", G)
        for st, _ in outs.ret:
            cov = each.Coverage(got, warns).run(st, st.events)
            if cov.problems:
                line, bad = cov.problems[0]
            elif not cov.covering:
                bad = "a path does not report what was relaxed"
            for ev in flat_events(st.events):
                if ev.kind != "call" or ev.args[0] != ("g", G):
                    continue
                a = ev.args[1] + tuple(v for _, v in ev.args[2])
                src = own(attr)
                vals = each.collected(st, st.events, a[0], src)
                whole = contains(a[0], lambda t: t[0] == "sub" and src(t[2])
                                 ) or any(contains(e[1], lambda t: t[0] ==
                                                   "sub" and src(t[2]))
                                          for e in items(st, a[0]))
                if vals.problems:
                    bad = "only part of the relaxations is looked at"
                elif not vals.covering and not whole:
                    bad = "looks at %s" % shown(a[0], 80)
                other = [t for x in a[1:] for t in subterms(x)
                         if t[0] == "call" and t[1] == ("b", "len") and
                         counts_else(t[2])]
                if other:
                    bad = ("they are lined up with %s, of which there can"
                           " be fewer" % shown(other[0], 60))
                if any(each.narrowed(x, lambda t: src(t)) for x in a):
                    bad = "only part of the relaxations is looked at"
        chk.ob("threshold", f, "what was relaxed is warned of",
               bad is None and bool(outs.ret), bad, line=line)


def counts_else(args):
    "The length of something which is not one per relaxation variable."
    if len(args) != 1:
        return False
    t = strip(args[0])
    if t == ("sub", SELF, K("relaxed constraints")) or contains(
            t, lambda x: x == K("freevariables")):
        return False
    return t == SELF or t[0] == "attr" and t[1] == SELF and t[2] in (
        "original_constraints", "constraints", "bounded", "vks")


def items(st, t):
    if t[0] == "obj":
        for e in st.objs.get(t[2], ()):
            if e[0] == "item":
                yield e


def close_to_most(facts, val):
    "A value known to lie below a tenth of the largest one."
    for lo, hi, _ in ordered(facts):
        if contains(lo, val) and contains(
                hi, lambda t: t[0] == "call" and t[1] == ("b", "max")):
            return True
    return False


def descending(eng, src, pairs):
    "The list is sorted with the largest relaxation first."
    if not (src[0] == "call" and src[1] == ("b", "sorted")):
        return "the relaxations are not sorted"
    kw = dict(src[3])
    key, rev = kw.get("key"), kw.get("reverse")
    sign = None
    if key is None:
        sign = 1
    elif key[0] == "closure":
        body = eng.closures[key[1]]
        node = body[0] if isinstance(body, tuple) else body
        node = getattr(node, "node", node)
        if isinstance(node, ast.Lambda):
            e = node.body
            sign = -1 if isinstance(e, ast.UnaryOp) and isinstance(
                e.op, ast.USub) else 1 if isinstance(e, ast.Subscript) \
                else None
    elif key[0] == "call":
        sign = 1
    if sign is None:
        return None
    if rev == K(True):
        sign = -sign
    elif rev not in (None, K(False)):
        return None
    if sign > 0:
        return "the smallest relaxation comes first"
    return None


# ------------------------------------------------------ warnings are kept ---
class Writes(Sum):
    "Notes writes of warnings entries that lose what was there."

    def __init__(self, prog):
        super().__init__(prog)
        self.lost, self.seen = [], 0

    def on_write(self, eng, st, frame, base, key, value, node):
        k = key[1] if isinstance(key, tuple) and key and key[0] == "k" else key
        hit = k in (K("warnings"), ("k", K("warnings"))) or k == "warnings" \
            or entry(base, st)
        if not hit or isinstance(key, str):
            return ()
        self.seen += 1
        kt = k
        if st.facts.get(("in", kt, base)) is False:
            return ()
        if value is not None and contains(
                value, lambda t: t == ("sub", base, kt) or
                t[0] == "call" and t[1] in (("attr", base, "get"),
                                            ("attr", base, "setdefault"))
                and t[2][:1] == (kt,)):
            return ()
        if base[0] == "obj" and not any(e[0] == "splat" for e in
                                        st.objs.get(base[2], ())):
            return ()            # a dictionary made here
        if value is not None and value[0] == "obj" and any(
                e[0] == "splat" and contains(e[1], lambda t: contains(
                    t, lambda x: x == kt)) for e in
                st.objs.get(value[2], ())):
            return ()
        self.lost.append((getattr(node, "lineno", None), shown(base, 50),
                          shown(kt, 30)))
        return ()


def entry(base, st):
    "The term is the dictionary of warnings of some result."
    return base[0] == "sub" and base[2] == K("warnings")


def touches(f):
    for n in walk_shallow(f.node):
        if isinstance(n, ast.Constant) and n.value == "warnings":
            return True
    return False


def recorded(chk):
    prog = chk.prog
    f, eng, outs = outcomes(chk, "gpkit.small_scripts.appendsolwarning")
    bad = None
    cat = ("p", "category")
    for st, _ in outs.ret:
        put = False
        for ev in flat_events(st.events):
            if ev.kind == "append":
                where, what = ev.args[0], ev.args[1]
            elif ev.kind == "call" and ev.args[0][0] == "attr" and \
                    ev.args[0][2] == "append" and ev.args[1]:
                where, what = ev.args[0][1], ev.args[1][0]
            elif ev.kind == "setitem" and ev.args[1] == cat and \
                    ev.args[2][0] == "obj":
                put |= warned_of(ev.args[0], st) and any(
                    e[1] == ("tuple", (("p", "msg"), ("p", "data")))
                    for e in items(st, ev.args[2]))
                continue
            else:
                continue
            if what != ("tuple", (("p", "msg"), ("p", "data"))):
                continue
            if where[0] == "obj":
                held = [b for (b, loc), v in st.heap.items()
                        if v == where and loc == ("k", cat)]
                put |= any(warned_of(b, st) for b in held) or any(
                    e[0] == "kv" and e[2] == where for e in ())
            elif contains(where, lambda t: t == cat) and contains(
                    where, lambda t: t == K("warnings")) and contains(
                        where, lambda t: t == RESULT):
                put = True
        if not put:
            bad = "a path ends without the message being recorded%s" % \
                each.why(dict(st.facts))
    chk.ob("kept", f, "the message is added to its category", bad is None and
           bool(outs.ret), bad)
    for f in judged(prog, [g for g in prog.all_functions() if touches(g)]):
        if f.module.name.startswith("gpkit.tests"):
            continue
        spec = Writes(prog)
        eng = Engine(prog, spec)
        try:
            eng.run(f)
        except AnalysisBroken:
            chk.notes.append("%s was not followed" % f.qual)
            continue
        chk.analysed(eng.stats["functions"])
        bad = None
        if spec.lost:
            bad = "an entry that may exist is replaced: %s[%s]" % \
                spec.lost[0][1:]
        chk.ob("kept", f, "entries already there", bad is None, bad,
               line=spec.lost[0][0] if spec.lost else None)


def warned_of(b, st):
    if b == ("sub", RESULT, K("warnings")):
        return True
    return st.heap.get((RESULT, ("k", K("warnings")))) == b


def one_entry(loop):
    "A list of as many entries as are written out, whatever the points."
    for p in loop.args[2]:
        if any(e.kind == "loop" for e in p[1]):
            continue
        for e in p[1]:
            if e.kind == "setitem":
                v = strip(e.args[2])
                if v[:2] == ("obj", "list"):
                    return "the earlier points are given a list that does" \
                        " not depend on how many they are"
    return None


def lined_up(chk):
    """Points of a sweep: a category that only some points have is given an
    entry for each of the others."""
    S = "gpkit.solution_array.SolutionArray"
    q = chk.prog.find_method(S, "append")
    f, eng, outs = outcomes(chk, q.qual)
    bad, n = None, 0

    new = ("p", f.all_params()[1])
    for st, _ in outs.ret:
        handled = False
        for ev in each.all_loops(st.events):
            for p in ev.args[2]:
                for inner in p[1]:
                    if inner.kind == "loop" and inner.args[0][0] != "comp" \
                            and ev in st.events:
                        n += 1
                        why = both_sides(inner, st, new) or \
                            one_entry(inner)
                        if why:
                            bad = why
                if ev not in st.events or ev.args[0][0] == "comp" or any(
                        e.kind == "loop" and e.args[0][0] != "comp"
                        for e in p[1]) or p[0] not in ("next", "continue"):
                    continue
                if contains(("tuple", tuple(t for t, _ in p[2])),
                            lambda t: t == K("warnings")) and not (
                                sum(t[0] == "in" and not b and
                                    t[1] == K("warnings")
                                    for t, b in p[2]) >= 2 or any(
                                        first_result(t, b)
                                        for t, b in p[2])):
                    bad = "warnings are not lined up%s" % each.why(
                        dict(p[2]))
            if any(e.kind == "loop" for p in ev.args[2] for e in p[1]):
                handled = True
        if not handled:
            # nothing to line up with: the first result
            if not any(first_result(t, b) for t, b in st.facts.items()):
                bad = bad or "nothing lines the new result up"
        passed = any(ev.kind == "call" and ev.args[0][0] == "attr" and
                     ev.args[0][2] in ("append", "_append_dict")
                     or ev.kind == "call" and ev.args[0][0] == "g" and
                     ev.args[0][1].endswith(("_append_dict", "_enlist_dict"))
                     for ev in st.events)
        if not passed:
            bad = "a path ends without the result being appended"
    chk.ob("kept", f, "points of a sweep are lined up", bad is None and
           n > 0, bad or "categories are not gone through")


def first_result(t, b):
    return t[0] == "call" and t[1] == ("b", "len") and not b or \
        t[0] == "hasattr" and not b


def both_sides(loop, st, new):
    it = loop.args[0]
    parts = resolve(st, it)
    if not (contains(parts, lambda t: t == SELF) and
            contains(parts, lambda t: t == new)):
        return "only the categories of %s are gone through" % shown(it, 60)
    bases = set()
    for p in loop.args[2]:
        if p[0] in ("break", "return"):
            return "not every category is gone through"
        if p[0] == "raise":
            continue
        here = set()
        for ev in p[1]:
            if ev.kind == "setitem" and ev.args[1][0] == "elem":
                here.add(ev.args[0])
            if ev.kind == "setdefault" and ev.args[1][0] == "elem":
                here.add(ev.args[0])
            if ev.kind == "call" and ev.args[0][0] == "attr" and \
                    ev.args[0][2] == "setdefault":
                here.add(ev.args[0][1])
        for t, b in p[2]:
            if t[0] == "in" and b and t[1][0] == "elem":
                here.add(t[2])
        bases.add(len(here) >= 2)
    if bases and not all(bases):
        return "a category is not given an entry on both sides"
    return None


# -------------------------------------------------------------- the table ---
def displayed(chk):
    T = "gpkit.solution_array."
    f, eng, outs = outcomes(chk, T + "warnings_table")
    W = ("sub", SELF, K("warnings"))
    bad, line, n = None, None, 0

    def says(ev):
        return ev.kind in ("extend", "append") or ev.kind == "aug"

    def empty(fs):
        return any(t[0] == "call" and t[1] == ("b", "len") and not b or
                   t[0] == "cmp" and t[1] == "==" and b and K(0) in t[2:]
                   or t[0] == "cmp" and t[1] == "<" and t[2] == K(0) and
                   not b or t[0] in ("elem", "val", "sub") and not b or
                   t[0] == "cmp" and t[1] == "<=" and t[2] == K(1) and not b
                   for t, b in fs.items())
    for st, v in outs.ret:
        fs = st.facts
        if fs.get(W) is False or fs.get(("in", K("warnings"), SELF)) is False:
            continue
        if any(t[0] == "call" and t[1] == ("attr", SELF, "get") and
               t[2][:1] == (K("warnings"),) and not b
               for t, b in fs.items()):
            continue
        found = False
        for ev in each.all_loops(st.events):
            if each.over(ev.args[0], lambda t: t == W) == "part":
                bad, line = "only some categories are shown", ev.line
            if each.over(ev.args[0], lambda t: t == W) != "whole":
                continue
            found = True
            n += 1
            for p in ev.args[2]:
                if p[0] in ("break", "return"):
                    bad, line = "the categories after one are not shown", \
                        ev.line
                inner = [e for e in p[1] if e.kind == "loop" and
                         e.args[0][0] != "comp"]
                said = any(says(e) for e in p[1])
                for lp in inner:
                    for q in lp.args[2]:
                        if q[0] == "raise":
                            continue
                        if not any(says(e) for e in q[1]) and not empty(
                                dict(q[2])):
                            bad = "messages are passed over%s" % each.why(
                                dict(q[2]))
                            line = lp.line
                        for e in q[1]:
                            if says(e) and cut(resolve(st, ("tuple", tuple(
                                    a for a in e.args if isinstance(
                                        a, tuple)))), W):
                                bad = "only part of the messages is shown"
                                line = e.line
                        if q[0] in ("break", "return"):
                            bad, line = "later messages are not shown", \
                                lp.line
                        for e in q[1]:
                            if e.kind == "loop" and any(
                                    x[0] == "skip" for x in e.args[2]):
                                bad, line = "some messages are left out", \
                                    e.line
                if not inner and not said and not empty(dict(p[2])):
                    bad, line = "a category is passed over%s" % each.why(
                        dict(p[2])), ev.line
        if not found:
            bad = bad or "a path does not go through the warnings"
    chk.ob("shown", f, "every category and message", bad is None and n > 0,
           bad or "the warnings are not gone through", line=line)
    # the table is there, and among those shown by default
    mod = chk.prog.modules["gpkit.solution_array"]
    names = {}
    for node in mod.tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.value, ast.Dict):
            for k, v in zip(node.value.keys, node.value.values):
                if isinstance(k, ast.Constant) and k.value == "warnings":
                    names[k.value] = getattr(v, "id", None)
    chk.ob("shown", f, "the table's entry",
           names.get("warnings") == "warnings_table",
           "no table of warnings is registered")
    table = chk.prog.method(T + "SolutionArray", "table")
    a = table.node.args
    default = None
    pos = a.args[len(a.args)-len(a.defaults):]
    for arg, d in list(zip(pos, a.defaults)) + list(zip(a.kwonlyargs,
                                                        a.kw_defaults)):
        if arg.arg == "tables":
            default = d
    tags = [e.value for e in default.elts if isinstance(e, ast.Constant)] \
        if isinstance(default, (ast.Tuple, ast.List)) else None
    if tags is None:
        chk.notes.append("the default tables are not a literal")
    else:
        chk.ob("shown", table, "shown by default", "warnings" in tags,
               "warnings are not among the tables shown by default")
    f, eng, outs = outcomes(chk, T + "SolutionArray.summary")
    bad = None
    for st, _ in outs.ret:
        calls = [ev for ev in st.events if ev.kind == "call" and
                 ev.args[0] == ("attr", SELF, "table")]
        tabs = set()
        for ev in calls:
            vals = list(ev.args[1]) + [x for k, x in ev.args[2]]
            if not any(k == "tables" for k, _ in ev.args[2]) and \
                    len(ev.args[1]) < 2:
                tabs.add("warnings")
            for x in vals:
                tabs |= {c[2] for c in each_const(st, x)}
        if "warnings" not in tabs:
            bad = "a summary does not show warnings"
    chk.ob("shown", f, "shown in a summary", bad is None and bool(outs.ret),
           bad)
    f, eng, outs = outcomes(chk, T + "SolutionArray.table")
    bad, n = None, 0
    for st, v in outs.ret:
        for ev in each.all_loops(st.events):
            if each.over(ev.args[0], P("tables")) != "whole":
                continue
            for p in ev.args[2]:
                fs = dict(p[2])
                if not any(t[0] == "in" and b and contains(
                        t[2], lambda x: x[0] in ("g", "obj") and
                        "TABLEFNS" in str(x)) for t, b in fs.items()):
                    continue
                asked = [(t, b) for t, b in fs.items() if t[0] == "cmp" and
                         t[1] == "==" and K("warnings") in t[2:]]
                if asked and not asked[0][1]:
                    continue
                n += 1
                if not any(says(e) for e in p[1]):
                    bad = "a table asked for is not made%s" % each.why(fs)
                elif p[0] in ("break", "return"):
                    bad = "the tables after one are not made"
    chk.ob("shown", f, "tables asked for", bad is None and n > 0, bad or
           "the tables asked for are not made")


def cut(t, src):
    return any(x[0] == "sub" and x[2][0] == "slice" and
               any(p != NONE for p in x[2][1:]) and
               contains(x[1], lambda y: y == src) for x in subterms(t))


def each_const(st, t):
    for x in subterms(t):
        if is_const(x) and isinstance(x[2], str):
            yield x
        if x[0] == "obj":
            for e in st.objs.get(x[2], ()):
                for y in e[1:-1]:
                    yield from each_const(st, y)
