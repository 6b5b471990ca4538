"""C11: orientation checking by symbolic terms.  The comparison methods are
executed symbolically and the constraint object each path builds must have the
method's operator between the operands as written; the constructors must send
the operands' sides to the standard form according to the operator on that
path; the standard form's terms must be lesser/greater; and each constraint a
relaxation builds is brought to the normal form (greater side)/(lesser side),
which has to be the original quotient times a positive power of a variable
that is itself bounded below by one.  Tables keyed by the operators must name
the same operator in every notation."""
import ast

from ..flow import (Engine, K, Spec, contains, flat_events, is_const, strip,
                    subterms)
from ..model import AnalysisBroken
from .algebra import equal, ratio, times
from .common import shown
from .each import all_loops

TECHNIQUE = "symbolic terms: orientation of every constraint built"
ASSUMPTIONS = ["relaxation variables take the values their own bounds allow"]
M = "gpkit.nomials.math."
OPS = {"__le__": "<=", "__ge__": ">=", "__eq__": "="}
SELF = ("p", "self")
NAMES = {
    "<=": {"<=", "≤", "\\leq", "\\le", "operator.le", "<", "le", "leq",
           "__le__"},
    ">=": {">=", "≥", "\\geq", "\\ge", "operator.ge", "ge", "geq", "__ge__"},
    "=": {"=", "==", "operator.eq", "eq", "__eq__"},
}
MIRROR = {"<=": ">=", ">=": "<=", "=": "="}


class Paths(Spec):
    loop_mode = "summary"


def run(chk):
    comparisons(chk)
    arrays(chk)
    sides_kept(chk)
    standard_form(chk)
    signomials(chk)
    relaxed(chk)
    relaxations(chk)
    constants_relaxed(chk)
    slack(chk)
    bounds_given(chk)
    tables(chk)
    cones(chk)
    chk.need("operator-written", 5)
    chk.need("standard-form", 4)
    chk.need("relaxed", 3)


def paths(chk, f, **kw):
    spec = Paths(chk.prog)
    for k, v in kw.items():
        setattr(spec, k, v)
    eng = Engine(chk.prog, spec)
    outs = eng.run(f)
    chk.analysed(eng.stats["functions"])
    return outs


def is_constraint(prog, q):
    return prog.is_subclass(
        q, "gpkit.constraints.single_equation.SingleEquationConstraint")


def bind(prog, cls, args, kwargs):
    "Constructor arguments by name."
    init = prog.find_method(cls, "__init__")
    names = [p for p in init.all_params() if p != "self"]
    out = dict(zip(names, args))
    out.update((k, v) for k, v in kwargs if k != "**")
    return out


def built(prog, t):
    """The constraint a term builds: (left, operator, right), where the
    comparison of expressions is normalised to <= or ==; None if it is not a
    constraint."""
    if t[0] == "cmp" and t[1] in ("<=", "=="):
        return t[2], "<=" if t[1] == "<=" else "=", t[3]
    if t[0] == "new" and is_constraint(prog, t[1]):
        a = bind(prog, t[1], t[2], t[3])
        if "left" in a and "right" in a:
            op = a.get("oper", K("="))
            return a["left"], op[2] if is_const(op) else op, a["right"]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in OPS and \
            len(t[2]) == 1:
        left = t[1][1]
        if left[0] == "super":
            left = left[1]
        return left, OPS[t[1][2]], t[2][0]
    if t[0] == "call" and t[1][0] == "g" and len(t[2]) == 2 and \
            t[1][1].rpartition(".")[2] in OPS:
        return t[2][0], OPS[t[1][1].rpartition(".")[2]], t[2][1]
    if t[0] == "call" and t[1][0] == "g" and len(t[2]) == 2 and \
            t[1][1] in ("operator.le", "operator.ge", "operator.eq"):
        return t[2][0], {"le": "<=", "ge": ">=", "eq": "="}[
            t[1][1][9:]], t[2][1]
    return None


def ordered(c):
    "(lesser, greater) of a built inequality, or None."
    left, op, right = c
    if op == "<=":
        return left, right
    if op == ">=":
        return right, left
    return None


def comparisons(chk):
    prog = chk.prog
    for cls in sorted(prog.classes.values(), key=lambda c: c.qual):
        if not cls.qual.startswith("gpkit.nomials.") or \
                ".tests." in cls.qual:
            continue
        for name, op in sorted(OPS.items()):
            f = prog.functions.get(cls.qual + "." + name)
            if f is None:
                continue
            other = [p for p in f.all_params() if p != "self"][:1]
            bad, n = None, 0
            for st, v in paths(chk, f).ret:
                c = built(prog, v)
                if c is None or v[0] == "cmp" and v[1] == "==":
                    if v[0] == "cmp" and v[1] == "<=" and name != "__eq__":
                        bad = "gives the truth value %s" % shown(v, 60)
                    continue
                n += 1
                want = (SELF, op, ("p", other[0]) if other else None)
                if v[0] == "cmp":       # written as a comparison
                    c = (c[2], ">=", c[0]) if op == ">=" else c
                if c != want:
                    bad = "%s %s other gives %s" % ("self", op, shown(v, 90))
            if n or name != "__eq__":
                chk.ob("operator-written", f, name, bad is None, bad)


def pair_of(node):
    "(operator symbol, function name) of array_constraint(symbol, function)."
    if isinstance(node, ast.Call) and len(node.args) == 2 and \
            isinstance(node.args[0], ast.Constant):
        fn = node.args[1]
        name = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", None)
        return node.args[0].value, name
    return None


def arrays(chk):
    prog = chk.prog
    cls = prog.classes.get("gpkit.nomials.array.NomialArray")
    n = 0
    for s in cls.node.body:
        if not isinstance(s, ast.Assign):
            continue
        for t in s.targets:
            if isinstance(t, ast.Name) and t.id in OPS:
                pair = pair_of(s.value)
                if pair is None:
                    chk.notes.append("undecided: %s of arrays" % t.id)
                    continue
                n += 1
                op = OPS[t.id]
                chk.ob("array-operator", cls.qual, t.id, pair[0] == op and
                       (pair[1] in NAMES[op] or
                        pair[1] not in set().union(*NAMES.values())),
                       "%s makes a constraint of %r from the function %s"
                       % (t.id, pair[0], pair[1]), line=s.lineno)
    f = prog.functions.get(
        "gpkit.nomials.array.array_constraint.<locals>.wrapped_func")
    if f is None:
        chk.notes.append("undecided: comparison of arrays")
        return
    bad, n = None, 0
    for st, v in paths(chk, f).ret:
        if v[0] != "new" or not is_constraint(prog, v[1]):
            continue
        a = bind(prog, v[1], v[2], v[3])
        n += 1
        left, right, cons = a.get("left"), a.get("right"), \
            a.get("constraints")
        if left is None or right is None or cons is None:
            continue
        if mentions(left, "other") or not mentions(left, "self") or \
                mentions(right, "self") or not mentions(right, "other"):
            bad = "the sides are recorded as %s and %s" % (
                shown(left, 40), shown(right, 40))
        if cons[0] == "call" and len(cons[2]) == 2 and (
                mentions(cons[2][0], "other") or
                mentions(cons[2][1], "self")):
            bad = "the elements are compared as %s" % shown(cons, 80)
        op = a.get("oper")
        if op is not None and is_const(op):
            bad = "the operator is always %s" % op[2]
    chk.ob("array-operator", f, "sides", n > 0 and bad is None, bad)


def mentions(t, name):
    return contains(t, lambda x: x == ("p", name))


def sides_kept(chk):
    "left, oper and right are stored as given."
    prog = chk.prog
    f = prog.functions["gpkit.constraints.single_equation."
                       "SingleEquationConstraint.__init__"]
    for st, v in paths(chk, f).ret:
        for name in ("left", "oper", "right"):
            got = st.heap.get((SELF, "." + name))
            chk.ob("sides-kept", f, name, got == ("p", name),
                   "%s is stored as %s" % (name, got and shown(got, 60)))
    for cls in sorted(prog.classes.values(), key=lambda c: c.qual):
        f = prog.functions.get(cls.qual + ".__init__")
        if f is None or not is_constraint(prog, cls.qual) or \
                not {"left", "right"} <= set(f.all_params()):
            continue
        for st, v in paths(chk, f).ret:
            bad, n = None, 0
            for e in flat_events(st.events):
                if e.kind != "call" or not parent_init(prog, e, cls.qual):
                    continue
                a = init_args(prog, e, cls.qual)
                for side in ("left", "right"):
                    if side in a:
                        n += 1
                        why = not_from(st, a[side], side)
                        if why:
                            bad = why
                op = a.get("oper")
                if op is not None and "oper" in f.all_params() and \
                        op != ("p", "oper"):
                    bad = "passes %s as the operator" % shown(op, 40)
            if n:
                chk.ob("sides-kept", f, "sides passed on", bad is None, bad)


def parent_init(prog, e, cls):
    t = e.args[0]
    if t[0] == "attr" and t[2] == "__init__":
        if t[1][0] == "super":
            return True
        return t[1][0] == "g" and prog.is_subclass(cls, t[1][1]) and \
            is_constraint(prog, t[1][1])
    if t[0] == "g" and t[1].endswith(".__init__"):
        return prog.is_subclass(cls, t[1][:-9]) and \
            is_constraint(prog, t[1][:-9])
    return False


def init_args(prog, e, cls):
    t = e.args[0]
    args = e.args[1]
    if t[0] == "attr" and t[1][0] == "super":
        bases = [b for b in prog.classes[cls].bases
                 if is_constraint(prog, b)]
        base = bases[0] if bases else cls
    else:
        base = t[1][1] if t[0] == "attr" else t[1][:-9]
        if args and args[0] == SELF:
            args = args[1:]
    try:
        return bind(prog, base, args, e.args[2])
    except AttributeError:
        return {}


def not_from(st, v, side):
    "Why a value is not the operand of that side, or None."
    other = "right" if side == "left" else "left"
    vals = [v]
    if v[0] == "sub" and v[1][0] == "obj" and is_const(v[2]):
        items = st.objs.get(v[1][2], ())
        if isinstance(v[2][2], int) and v[2][2] < len(items) and \
                items[v[2][2]][0] == "item":
            vals = [items[v[2][2]][1]]
            for e in flat_events(st.events):
                if e.kind == "setitem" and e.args[0] == v[1]:
                    if is_const(e.args[1]) and e.args[1] != v[2]:
                        continue
                    if not is_const(e.args[1]) and e.args[1][0] != "idx":
                        return "an element is put at %s" % shown(
                            e.args[1], 40)
        else:
            return None
    if any(mentions(x, other) for x in vals) or \
            not any(mentions(x, side) for x in vals) and vals != [v]:
        return "%s is passed on as the %s side" % (shown(vals[0], 60), side)
    return None


def possible(facts, term, values=("<=", ">=", "=")):
    "The values of an operator term that the recorded facts allow."
    out = set(values)
    for t, b in facts.items():
        if t[0] == "cmp" and t[1] == "==" and term in t[2:]:
            k = t[3] if t[2] == term else t[2]
            if is_const(k):
                out = {o for o in out if (o == k[2]) == b}
        elif t[0] == "in" and t[1] == term and t[2][0] in ("tuple",):
            ks = {k[2] for k in t[2][1] if is_const(k)}
            out = {o for o in out if (o in ks) == b}
        elif t[0] == "in" and t[1] == term and is_const(t[2]) and \
                isinstance(t[2][2], str):
            out = {o for o in out if (o in t[2][2]) == b}
    return out


OPER = [("attr", SELF, "oper"), ("p", "oper")]


def opers(st):
    out = {"<=", ">=", "="}
    for t in OPER:
        out &= possible(st.facts, t)
    got = st.heap.get((SELF, ".oper"))
    if got is not None and is_const(got):
        out &= {got[2]}
    return out


def side_of(t):
    """Which written side a term is: the constraint's left or right
    expression, or the constructor's parameter of that name."""
    if t in (("attr", SELF, "left"), ("p", "left")):
        return "left"
    if t in (("attr", SELF, "right"), ("p", "right")):
        return "right"
    return None


def standard_form(chk):
    prog = chk.prog
    gen = prog.functions.get(M + "PosynomialInequality._gen_unsubbed")
    for cls in sorted(prog.classes.values(), key=lambda c: c.qual):
        if not prog.is_subclass(cls.qual, M + "PosynomialInequality"):
            continue
        f = prog.functions.get(cls.qual + ".__init__")
        if f is None:
            continue
        for st, v in paths(chk, f).ret:
            got = st.heap.get((SELF, ".unsubbed"))
            if got is None:
                chk.notes.append("undecided: no standard form in " + f.qual)
                continue
            calls = [x for x in subterms(got) if x[0] == "call" and
                     x[1][0] == "attr" and x[1][2] == "_gen_unsubbed"]
            if len(calls) != 1 or len(calls[0][2]) != 2:
                chk.notes.append("undecided: the standard form of " + f.qual)
                continue
            args = [side_of(a) for a in calls[0][2]]
            meq = cls.qual != M + "PosynomialInequality"
            can = {"="} if meq else opers(st) - {"="}
            bad = None
            for op in can:
                want = {"<=": ["left", "right"], ">=": ["right", "left"]}
                if meq and sorted(map(str, args)) == ["left", "right"] or \
                        not meq and args == want[op]:
                    continue
                bad = "left %s right is brought to the form %s / %s" % (
                    op, shown(calls[0][2][0], 40), shown(calls[0][2][1], 40))
            chk.ob("standard-form", f, "sides for %s" % "/".join(sorted(can)),
                   bad is None, bad)
    quotient(chk, gen)
    both(chk)


def quotient(chk, f):
    "The terms of the standard form are lesser/greater."
    if f is None:
        chk.notes.append("undecided: no _gen_unsubbed")
        return
    names = [p for p in f.all_params() if p != "self"]
    if len(names) < 2:
        chk.notes.append("undecided: the parameters of _gen_unsubbed")
        return
    lo, hi = names[:2]

    def from_lesser(t):
        return mentions(t, lo) and not mentions(t, hi)

    def from_greater(t):
        return mentions(t, hi) and not mentions(t, lo)
    for st, v in paths(chk, f).ret:
        writes = [(e.args[1], e.args[2]) for e in flat_events(st.events)
                  if e.kind == "setitem"]
        for o in st.objs.values():
            writes += [(e[1], e[2]) for e in o if e[0] == "kv"]
        n = 0
        for k, val in writes:
            if not (mentions(k, lo) and mentions(k, hi)):
                continue
            n += 1
            kn, kd = ratio(strip(k))
            ok = len(kd) == 1 and all(
                len(m) == 1 and (from_lesser(m[0][0]) and c == 1 or
                                 from_greater(m[0][0]) and c == -1)
                for m, c in kn.items()) and len(kn) == 2
            chk.ob("standard-form", f, "exponents", ok,
                   "a term's exponents become %s, not lesser - greater"
                   % shown(k, 100))
            vn, vd = ratio(strip(val))
            nn = powers(vn, vd)
            ok = nn is not None and \
                sum(x for a, x in nn.items() if from_lesser(a)) == 1 and \
                sum(x for a, x in nn.items() if from_greater(a)) == -1
            chk.ob("standard-form", f, "coefficients", ok,
                   "a term's coefficient becomes %s, not lesser / greater"
                   % shown(val, 100))
        if not n:
            chk.notes.append("undecided: no terms of the standard form on a"
                             " path of " + f.qual)


def powers(n, d):
    "A quotient of single monomials as {atom: power}."
    if len(n) != 1 or len(d) != 1:
        return None
    out = {}
    (m, _), = n.items()
    for a, x in m:
        out[a] = out.get(a, 0) + x
    (m, _), = d.items()
    for a, x in m:
        out[a] = out.get(a, 0) - x
    return {a: x for a, x in out.items() if x}


def both(chk):
    "An equality is both inequalities."
    f = chk.prog.functions.get(M + "MonomialEquality._gen_unsubbed")
    if f is None:
        chk.notes.append("undecided: the standard form of equalities")
        return
    names = [("p", p) for p in f.all_params() if p != "self"]
    from .c10 import held
    for st, v in paths(chk, f).ret:
        seen = set()
        for x in [v] + list(held(st, v)):
            for t in subterms(x):
                if t[0] == "call" and contains(
                        t[1], lambda y: y[-1] == "_gen_unsubbed" or
                        y[0] == "g" and y[1].endswith("._gen_unsubbed")):
                    args = tuple(a for a in t[2] if a != SELF)
                    seen.add(args)
        a, b = names[:2]
        chk.ob("equality-both-ways", f, "standard form",
               {(a, b), (b, a)} <= seen,
               "the equality is only %s" % " and ".join(
                   "%s <= %s" % (shown(x[0], 30), shown(x[1], 30))
                   for x in sorted(seen) if len(x) == 2))


def signomials(chk):
    prog = chk.prog
    S = M + "SignomialInequality"
    f = prog.functions.get(S + ".__init__")
    for st, v in paths(chk, f).ret:
        got = st.heap.get((SELF, ".unsubbed"))
        vals = [e[1] for e in st.objs.get(got[2], ())
                if e[0] == "item"] if got and got[0] == "obj" else [got]
        for val in vals:
            if val is None or val[0] != "bin":
                chk.notes.append("undecided: the standard form of " + f.qual)
                continue
            for op in sorted(opers(st) - {"="}):
                lo, hi = ("left", "right") if op == "<=" else \
                    ("right", "left")
                ok = equal(val, ("bin", "-", ("attr", SELF, lo),
                                 ("attr", SELF, hi)))
                chk.ob("standard-form", f, "signomial %s" % op, ok,
                       "left %s right is brought to the form %s <= 0"
                       % (op, shown(val, 60)))
    for name in ("as_hmapslt1", "as_gpconstr"):
        f = prog.functions.get(S + "." + name)
        n = 0
        for st, v in paths(chk, f).ret:
            for x in subterms(v):
                c = built(prog, x)
                if c is None or x[0] == "call":
                    continue
                lohi = ordered(c)
                if lohi is None:
                    chk.ob("standard-form", f, "approximation", False,
                           "an inequality becomes %s" % shown(x, 80))
                    continue
                n += 1
                ok = part(lohi[0]) == 0 and part(lohi[1]) == 1
                chk.ob("standard-form", f, "approximation", ok,
                       "the positive part has to be the lesser side: %s"
                       % shown(x, 120))
        if not n:
            chk.notes.append("undecided: no constraint built by " + f.qual)
    q = M + "SingleSignomialEquality.as_gpconstr"
    f = prog.functions.get(q)
    for st, v in paths(chk, f).ret:
        c = built(prog, v)
        if c is None:
            chk.notes.append("undecided: what %s returns" % q)
            continue
        chk.ob("equality-both-ways", f, "approximation",
               c[1] == "=" and {part(c[0]), part(c[2])} == {0, 1},
               "an equality becomes %s" % shown(v, 120))
    f = prog.functions.get(M + "SingleSignomialEquality.__init__")
    for st, v in paths(chk, f).ret:
        op = st.heap.get((SELF, ".oper"))
        chk.ob("equality-both-ways", f, "operator", op == K("="),
               "an equality records the operator %s" % (op and shown(op)))
    parts(chk)


def part(t):
    "0 or 1 if the term comes from that part of posy_negy()."
    found = {x[2][2] for x in subterms(t) if x[0] == "sub" and
             is_const(x[2]) and x[1][0] == "call" and
             x[1][1][0] == "attr" and x[1][1][2] == "posy_negy"}
    return found.pop() if len(found) == 1 else None


def parts(chk):
    "posy_negy gives positive terms first and negated negative ones second."
    f = chk.prog.functions.get(M + "Signomial.posy_negy")
    seen = set()
    for st, v in paths(chk, f).ret:
        if v[0] != "tuple" or len(v[1]) != 2:
            chk.notes.append("undecided: what posy_negy returns")
            return
        for i, x in enumerate(v[1]):
            if x[0] != "new" or not x[2]:
                continue
            for e in all_loops(st.events):
                for p in e.args[2]:
                    for w in p[1]:
                        if w.kind != "setitem" or w.args[0] != x[2][0]:
                            continue
                        val = w.args[2]
                        s = -1 if val[0] == "neg" else 1
                        c = val[1] if val[0] == "neg" else val
                        sign = known_sign(p[2], c)
                        seen.add(i)
                        chk.ob("standard-form", f, "part %i" % i,
                               s == (1 if i == 0 else -1) and
                               sign in (s, None),
                               "part %i holds %s where it is %s" % (
                                   i, shown(val, 60), {1: "positive",
                                                       -1: "negative"}.get(
                                                           sign)))
    if seen != {0, 1}:
        chk.notes.append("undecided: the parts of posy_negy")


def known_sign(facts, c):
    sign, not_pos, not_neg = None, False, False
    items = facts.items() if hasattr(facts, "items") else facts
    for t, b in items:
        if t == ("cmp", "<", K(0), c):
            sign, not_pos = (1, False) if b else (sign, True)
        elif t == ("cmp", "<", c, K(0)):
            sign, not_neg = (-1, False) if b else (sign, True)
        elif t == ("cmp", "<=", c, K(0)) and not b:
            sign = 1
        elif t == ("cmp", "<=", K(0), c) and not b:
            sign = -1
    if sign is None and not_pos:
        return -1
    if sign is None and not_neg:
        return 1
    return sign


def items_of(st, v):
    if v[0] == "obj":
        return [e[1] for e in st.objs.get(v[2], ()) if e[0] == "item"]
    if v[0] == "tuple":
        return list(v[1])
    return None


def relaxed(chk):
    prog = chk.prog
    n = 0
    for f in prog.all_functions():
        if f.name != "relaxed" or f.cls is None or ".tests." in f.qual:
            continue
        params = [p for p in f.all_params() if p != "self"]
        if not params:
            continue
        R = ("p", params[0])
        L, G = ("attr", SELF, "left"), ("attr", SELF, "right")
        for st, v in paths(chk, f).ret:
            got = items_of(st, v)
            if got is None:
                chk.notes.append("undecided: what %s returns" % f.qual)
                continue
            for op in sorted(opers(st)):
                n += 1
                ways, bad = set(), None
                for x in got:
                    c = built(prog, x)
                    lohi = c and ordered(c)
                    if not lohi:
                        bad = "contains %s" % shown(x, 80)
                        continue
                    for lo, hi, way in ((L, G, "<="), (G, L, ">=")):
                        k = relaxes(lohi, lo, hi, R)
                        if k is not None:
                            if k < 1:
                                bad = "%s is no easier than %s <= %s" % (
                                    shown(x, 90), shown(lo), shown(hi))
                            ways.add(way)
                            break
                    else:
                        bad = "%s does not relax %s %s %s" % (
                            shown(x, 90), shown(L), op, shown(G))
                want = {"<=", ">="} if op == "=" else {op}
                if bad is None and ways != want:
                    bad = "left %s right is relaxed as left %s right" % (
                        op, " and ".join(sorted(ways)) or "nothing")
                chk.ob("relaxed", f, "left %s right" % op, bad is None, bad)
    chk.stats["relaxations"] = n


def relaxes(lohi, lo, hi, R):
    "The power k with lohi[1]/lohi[0] = (hi/lo)*R**k, or None."
    for k in (1, 0, -1, 2, 3, -2):
        if equal(("bin", "*", lohi[1], lo),
                 ("bin", "*", ("bin", "*", hi, ("bin", "**", R, K(k))),
                  lohi[0])):
            return k
    return None


def relaxations(chk):
    "The variable passed to relaxed() is kept above one, and only that."
    prog = chk.prog
    for f in prog.all_functions():
        if ".tests." in f.qual or f.name == "relaxed":
            continue
        if not any(getattr(n.func, "attr", None) == "relaxed"
                   for n in calls(f)):
            continue
        outs = paths(chk, f)
        for st, v in outs.ret:
            evs = list(flat_events(st.events))
            passed = [e.args[1][0] for e in evs if e.kind == "call" and
                      e.args[0][0] == "attr" and e.args[0][2] == "relaxed"
                      and e.args[1]]
            given = [x for e in evs if e.kind == "call" and
                     contains(e.args[0], lambda t: t[-1] == "__init__" or
                              t[0] == "g" and t[1].endswith("__init__"))
                     for x in e.args[1]]
            from .c10 import held
            kept = {t for g in given for h in held(st, g)
                    for t in subterms(h) if t[0] == "cmp"}
            for r in passed:
                whole = r[1] if r[0] == "sub" else r
                lows = [c for c in kept if built(prog, c) and
                        built(prog, c)[1] == "<=" and
                        strip(c[3]) in (strip(whole), strip(r))]
                ok = any(is_const(c[2]) and c[2][2] == 1 for c in lows)
                chk.ob("relaxation-bounded", f, "relaxation variable", ok,
                       "nothing keeps %s at one or above" % shown(whole, 60))
                highs = [c for c in kept if built(prog, c) and
                         strip(c[2]) in (strip(whole), strip(r)) and
                         is_const(c[3])]
                chk.ob("relaxation-bounded", f, "upper bounds", not highs,
                       "%s is limited" % shown(whole, 60))


def calls(f):
    from .common import calls_in
    return calls_in(f)


def constants_relaxed(chk):
    """A freed constant may differ from its value by the relaxation in either
    direction, and by nothing else."""
    prog = chk.prog
    f = prog.functions.get(
        "gpkit.constraints.relax.ConstantsRelaxed.__init__")
    if f is None:
        chk.notes.append("undecided: no ConstantsRelaxed")
        return
    n = 0
    for st, v in paths(chk, f).ret:
        for loop in all_loops(st.events):
            for p in loop.args[2]:
                if p[0] not in ("next", "continue"):
                    continue
                cmps = [w.args[0] for w in flat_events(p[1])
                        if w.kind == "compare" and w.args[0][0] == "cmp" and
                        any(x[0] == "new" and x[1].endswith(".Variable")
                            for x in subterms(w.args[0]))]
                cmps = [c for c in cmps if built(prog, c)]
                if not cmps:
                    continue
                R = {c[3] for c in cmps if c[1] == "<=" and
                     is_const(c[2]) and c[2][2] == 1}
                rest = [c for c in cmps if not (is_const(c[2]) and
                                                c[3] in R)]
                n += 1
                bad, ways = None, set()
                if len(R) != 1:
                    bad = "no single relaxation variable is kept above one"
                for c in rest if len(R) == 1 else ():
                    r, = R
                    num, den = ratio(c[3])
                    num2, den2 = ratio(c[2])
                    pw = powers(times(num, den2), times(den, num2))
                    if pw is None or c[1] != "<=":
                        bad = "contains %s" % shown(c, 100)
                        continue
                    k = pw.pop(strip(r), 0)
                    if k < 1 or sorted(pw.values()) != [-1, 1]:
                        bad = "%s does not widen with the relaxation" % shown(
                            c, 120)
                        continue
                    ways.add(tuple(sorted(pw.items(), key=repr)))
                if bad is None and len(ways) != 2:
                    bad = "the freed constant is bounded on %i of 2 sides" \
                        % len(ways)
                chk.ob("relaxation-bounded", f, "freed constant",
                       bad is None, bad)
    if not n:
        chk.notes.append("undecided: constraints of a freed constant")


def slack(chk):
    "Slack of the sequential program widens the greater side."
    prog = chk.prog
    base = "gpkit.constraints.sgp.SequentialGeometricProgram."
    SL = ("attr", SELF, "slack")
    f = prog.functions.get(base + "__init__")
    n = 0
    for st, v in paths(chk, f).ret:
        mine = st.heap.get((SELF, ".slack"), SL)
        for e in flat_events(st.events):
            if e.kind != "compare" or e.args[0][0] != "cmp":
                continue
            c = e.args[0]
            num, den = ratio(c[3])
            num2, den2 = ratio(c[2])
            atoms = {a for q in (num, den, num2, den2) for m in q
                     for a, _ in m}
            if not atoms & ({SL, mine}):
                continue
            n += 1
            if is_const(c[2]) or is_const(c[3]):
                chk.ob("slack", f, "bound of the slack",
                       c[1] == "<=" and is_const(c[2]) and c[2][2] == 1,
                       "the slack is bounded as %s" % shown(c, 60))
            else:
                pw = powers(times(num, den2), times(den, num2)) or {}
                chk.ob("slack", f, "approximation",
                       c[1] == "<=" and pw.get(SL, pw.get(mine, 0)) >= 1,
                       "an approximation is relaxed as %s" % shown(c, 100))
    f = prog.functions.get(base + "gp")
    for st, v in paths(chk, f).ret:
        for e in flat_events(st.events):
            if e.kind != "set" or e.args[1] != "unsubbed":
                continue
            for x in items_of(st, e.args[2]) or []:
                if not contains(x, lambda t: t == SL):
                    chk.ob("slack", f, "updated approximation", False,
                           "the slack is lost: %s" % shown(x, 80))
                    continue
                pw = powers(*ratio(x))
                n += 1
                chk.ob("slack", f, "updated approximation",
                       pw is not None and pw.get(SL, 0) == -1,
                       "an approximation is relaxed as %s <= 1"
                       % shown(x, 80))
    if not n:
        chk.notes.append("undecided: slack of the sequential program")


def bounds_given(chk):
    "varkey_bounds: lower <= variable <= upper."
    prog = chk.prog
    f = prog.functions.get("gpkit.constraints.bounded.varkey_bounds")
    if f is None:
        chk.notes.append("undecided: no varkey_bounds")
        return
    for st, v in paths(chk, f).ret:
        for e in flat_events(st.events):
            if e.kind != "compare" or e.args[0][0] != "cmp" or \
                    not contains(e.args[0], lambda t: t[0] == "new"):
                continue
            c = e.args[0]
            for name, i in (("lower", 2), ("upper", 3)):
                if mentions(c, name):
                    chk.ob("bounds-given", f, name, c[1] == "<=" and
                           mentions(c[i], name),
                           "the %s bound is written %s" % (name,
                                                           shown(c, 80)))


def tables(chk):
    "Tables keyed by the operators, in any notation."
    prog = chk.prog
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        if m.name.startswith("gpkit.tests"):
            continue
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Dict) or len(node.keys) < 2:
                continue
            keys = [k.value if isinstance(k, ast.Constant) else None
                    for k in node.keys]
            if not all(k in NAMES for k in keys):
                continue
            bad = None
            for k, val in zip(keys, node.values):
                if isinstance(val, ast.Constant):
                    got = val.value
                elif isinstance(val, ast.Name):
                    got = val.id
                elif isinstance(val, ast.Attribute):
                    got = val.attr
                else:
                    continue
                other = [o for o in NAMES if got in NAMES[o]]
                if other and k not in other:
                    bad = "%r is written as %r" % (k, got)
            if all(isinstance(v, ast.Constant) and v.value == MIRROR[k]
                   for k, v in zip(keys, node.values)):
                bad = None          # a table of mirror images
            chk.ob("operator-tables", m.name, "line %i" % node.lineno,
                   bad is None, bad, line=node.lineno)


def cones(chk):
    "Rows given to mosek's conic interface are bounded above, never below."
    f = chk.prog.functions.get("gpkit.solvers.mosek_conif.optimize")
    if f is None:
        chk.notes.append("undecided: no conic back end")
        return
    n = 0
    from .c10 import held
    for st, v in paths(chk, f).ret:
        for e in flat_events(st.events):
            if e.kind != "call" or e.args[0][0] != "attr" or \
                    e.args[0][2] != "putconboundlist":
                continue
            kinds = {t[2] for a in e.args[1] for h in held(st, a)
                     for t in subterms(h) if t[0] == "attr" and
                     contains(t[1], lambda x: x[-1] == "boundkey" or
                              x[0] == "g" and x[1].endswith("boundkey"))}
            kinds |= {t[1].rpartition(".")[2] for a in e.args[1]
                      for h in held(st, a) for t in subterms(h)
                      if t[0] == "g" and ".boundkey." in t[1]}
            n += 1
            chk.ob("row-bounds", f, "constraint rows",
                   kinds <= {"fx", "up"} and "up" in kinds,
                   "rows are bounded as %s" % ", ".join(sorted(kinds)),
                   line=e.line)
    if not n:
        chk.notes.append("undecided: row bounds of the conic back end")
