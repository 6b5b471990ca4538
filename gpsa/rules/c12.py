"""C12: guard analysis of the positivity gate.  Every normal exit of the
constructor of expressions must have established that no coefficient is
non-positive, or that the caller does not require positive ones, or that
signomials are enabled (and an expression that has one must be of the signomial
class, which posynomial constraints do not accept); every normal exit of a
signomial inequality's constructor that signomials are enabled; every map of
terms that becomes part of a program that its coefficients are positive.  Who
may ask for the gate to be left open, build an expression around it, or enable
signomials on the package's own account is a closed list."""
import ast

from ..flow import K, NONE, Engine, contains, flat_events, is_const, strip
from ..model import AnalysisBroken, walk_shallow
from . import each
from .c10 import SELF, Sum, held, outcomes
from .common import callers_closure, judged, shown
from .quant import at_most_zero, coefficient, nonpositive

TECHNIQUE = "guard analysis on all constructor exits; who-may-call rules"
ASSUMPTIONS = ["users do not assign to an expression's hmap or class"]
M = "gpkit.nomials.math."
SE = ("g", "gpkit.globals.SignomialsEnabled")
FLAG = ("attr", SELF, "any_nonpositive_cs")


class Watch(Sum):
    "Keeps paths apart that differ in the gate's conditions."

    @staticmethod
    def watched(t):
        return t in (SE, FLAG, ("p", "require_positive")) or \
            t == ("attr", SE, "_true")


def run(chk):
    gate(chk)
    flag(chk)
    switch(chk)
    constraints(chk)
    programs(chk)
    split(chk)
    open_gates(chk)
    unary(chk)
    chk.need("gate", 3)
    chk.need("program", 5)
    chk.need("closed-list", 4)


def watched(chk, f):
    eng = Engine(chk.prog, Watch(chk.prog))
    outs = eng.run(f)
    chk.analysed(eng.stats["functions"])
    return eng, outs


def enabled(facts):
    return facts.get(SE) is True or facts.get(("attr", SE, "_true")) is True


def has_nonpositive(st, facts):
    "True, False or None: what a path knows of its own coefficients."
    if FLAG in facts:
        return facts[FLAG]
    for t, b in facts.items():
        got = nonpositive(st, t, coefficient)
        if got is not None:
            return got[0] == b
    return None


def gate(chk):
    f = chk.prog.method(M + "Signomial", "__init__")
    eng, outs = watched(chk, f)
    bad, cls, n = None, None, 0
    for st, _ in outs.ret:
        n += 1
        np_ = has_nonpositive(st, st.facts)
        lax = st.facts.get(("p", "require_positive")) is False
        if np_ is not False and not lax and not enabled(st.facts):
            bad = "a path ends %s%s" % (
                "although a coefficient is not positive" if np_ else
                "without the coefficients being tested", each.why({
                    t: b for t, b in st.facts.items() if Watch.watched(t)}))
        made = st.heap.get((SELF, ".__class__"))
        if np_ is not False and made != ("g", M + "Signomial"):
            cls = "an expression with a non-positive coefficient becomes %s" \
                % (shown(made, 50) if made else "what it was created as")
    chk.ob("gate", f, "%i normal exits" % n, bad is None and n > 0, bad or
           "no exit")
    chk.ob("gate", f, "class of a signomial", cls is None and n > 0, cls)
    for q, name in ((M + "Signomial", "__init__"), (M + "Signomial", "sub"),
                    ("gpkit.nomials.array.NomialArray", "sub")):
        g = chk.prog.method(q, name)
        a = g.node.args
        pairs = list(zip((a.posonlyargs + a.args)[
            len(a.posonlyargs + a.args)-len(a.defaults):], a.defaults)) + \
            list(zip(a.kwonlyargs, a.kw_defaults))
        for arg, d in pairs:
            if arg.arg == "require_positive":
                chk.ob("gate", g, "default of require_positive", isinstance(
                    d, ast.Constant) and d.value is True,
                       "the gate is open by default")


def flag(chk):
    f = chk.prog.method("gpkit.nomials.data.NomialData", "__init__")
    eng, outs = watched(chk, f)
    bad, n = None, 0
    hm = (("p", "hmap"), ("attr", SELF, "hmap"))
    for st, _ in outs.ret:
        v = st.heap.get((SELF, ".any_nonpositive_cs"))
        n += 1
        if v is None:
            bad = "a path does not note whether a coefficient is not positive"
            continue
        got = nonpositive(st, v, coefficient)
        if got is None and is_const(v):
            got = None
            for t, b in st.facts.items():
                g = nonpositive(st, t, coefficient)
                if g is not None and (g[0] == b) == bool(v[2]):
                    got = (True, g[1])
            if got is None and by_loop(st, v, hm):
                continue
        if got is None and v[0] in ("loopout", "phi", "loopvar"):
            chk.notes.append("any_nonpositive_cs comes from a loop that was"
                             " not followed")
            continue
        if got is None or got[0] is not True or got[1] not in hm:
            bad = "it is %s" % shown(v, 80)
            if v[0] == "call" and v[1] == ("b", "any") and \
                    v[2][0][0] == "obj":
                bad += " of " + "; ".join(
                    shown(e[1], 60) for e in st.objs.get(v[2][0][2], ()))
    chk.ob("gate", f, "what counts as non-positive", bad is None and n > 0,
           bad)


def by_loop(st, v, hm):
    "False after a loop in which a non-positive coefficient leads elsewhere."
    for ev in each.all_loops(st.events):
        for p in ev.args[2]:
            for t, b in p[2]:
                if contains(t, lambda x: coefficient(x) in hm):
                    return True
    return False


def switch(chk):
    c = chk.prog.classes.get("gpkit.globals.SignomialsEnabledMeta")
    m = c and c.methods.get("__bool__")
    if m is None:
        raise AnalysisBroken("SignomialsEnabled has no truth value")
    f, eng, outs = outcomes(chk, m.qual)
    me = ("p", m.all_params()[0])
    vals = {v for _, v in outs.ret}
    ok = vals and all(strip(v) in (("attr", me, "_true"), ("call", (
        "b", "bool"), (("attr", me, "_true"),), ()), ("attr", SE, "_true"))
                      or is_const(v) for v in vals)
    for st, v in outs.ret:
        if is_const(v):
            ok = ok and any(
                t in (("attr", me, "_true"), ("attr", SE, "_true")) and
                b == bool(v[2]) for t, b in st.facts.items())
    chk.ob("gate", f, "truth of SignomialsEnabled", bool(ok),
           "it is %s" % ", ".join(shown(v, 40) for v in vals))
    env = chk.prog.classes["gpkit.globals.SignomialsEnabled"]
    d = env.attrs.get("_true", [None])[0]
    chk.ob("gate", env.qual, "signomials off at first", isinstance(
        d, ast.Constant) and d.value is False, "they start enabled")


# -------------------------------------------------------------- constraints --
def constraints(chk):
    base = M + "SignomialInequality"
    for q, c in sorted(chk.prog.classes.items()):
        if base not in chk.prog.mro(q) or "__init__" not in c.methods:
            continue
        f = c.methods["__init__"]
        spec = Watch(chk.prog)
        spec.inlined = tuple(
            x.methods["__init__"].qual for y, x in chk.prog.classes.items()
            if base in chk.prog.mro(y) and "__init__" in x.methods and
            x.methods["__init__"].qual != f.qual)
        eng = Engine(chk.prog, spec)
        outs = eng.run(f)
        chk.analysed(eng.stats["functions"])
        bad = None
        for st, _ in outs.ret:
            if not enabled(st.facts) and not subtracts(st):
                bad = "made without signomials being enabled%s" % each.why(
                    st.facts)
        chk.ob("constraint", f, "signomials enabled at every exit",
               bad is None and bool(outs.ret), bad)


def subtracts(st):
    "Forms a difference of expressions, which raises by itself."
    return any(ev.kind == "bin" and ev.args[0][1] == "-" and all(
        contains(x, lambda t: t[0] == "attr" and t[2] in ("left", "right"))
        for x in ev.args[0][2:4]) for ev in st.events)


# ----------------------------------------------------------------- programs --
def programs(chk):
    prog = chk.prog
    f, eng, outs = outcomes(chk, "gpkit.constraints.gp.GeometricProgram"
                            ".__init__")
    bad, n = None, 0
    cost = ("p", "cost")

    def of_cost(m):
        m = strip(m)
        return m[0] == "call" and m[1][-1] == "sub" and contains(
            m[1], lambda t: t == cost)
    for st, _ in outs.ret:
        n += 1
        known = [m for m in known_positive(st, st.facts, st.events)]
        hm = st.heap.get((SELF, ".hmaps"))
        mine = [m for m in known if of_cost(m)]
        if not mine:
            by_flag = any(t[0] == "attr" and t[2] == "any_nonpositive_cs" and
                          not b and contains(t, lambda x: x[0] == "call" and
                                             x[1][-1] == "sub")
                          for t, b in st.facts.items())
            if not by_flag:
                bad = "the substituted cost's coefficients are not tested"
        elif hm is not None and not any(
                contains(x, lambda t, m=mine: strip(t) in map(strip, m))
                for x in held(st, hm)):
            bad = "the cost tested is not the one solved for"
    chk.ob("program", f, "positive cost", bad is None and n > 0, bad)
    for q, c in sorted(prog.classes.items()):
        if "as_hmapslt1" not in c.methods:
            continue
        g = c.methods["as_hmapslt1"]
        g, eng, outs = outcomes(chk, g.qual)
        bad, line = None, None
        for st, v in outs.ret:
            why = tested(st, v)
            if why:
                bad, line = why if isinstance(why, tuple) else (why, None)
        chk.ob("program", g, "positive constraint terms", bad is None, bad,
               line=line)
    # maps exchanged in a program that exists already
    seeds = [h for h in prog.all_functions() if any(
        isinstance(x, ast.Attribute) and x.attr == "hmaps"
        for x in walk_shallow(h.node))]
    for h in judged(prog, seeds):
        if h.module.name.startswith("gpkit.tests"):
            continue
        try:
            h, eng, outs = outcomes(chk, h.qual)
        except AnalysisBroken:
            chk.notes.append("%s was not followed" % h.qual)
            continue
        bad, line, n = None, None, 0
        for st, _ in outs.ret:
            for ev in flat_events(st.events):
                if ev.kind == "setitem" and ev.args[0][0] == "attr" and \
                        ev.args[0][2] == "hmaps":
                    n += 1
                    v = ev.args[2]
                    while v[0] in ("sub", "elem", "only"):
                        v = v[1]
                    if not delegated(v):
                        bad, line = "takes %s" % shown(ev.args[2], 60), ev.line
        if n:
            chk.ob("program", h, "terms exchanged", bad is None, bad,
                   line=line)


def known_positive(st, facts, events):
    for t, b in dict(facts).items():
        got = nonpositive(st, t, coefficient)
        if got is not None and got[0] != b:
            yield got[1]
    for ev in events:
        if ev.kind == "loop" and ev.args[0][0] != "comp":
            maps = []
            for p in ev.args[2]:
                if p[0] == "raise":
                    continue
                maps.append({m for t, b in p[2]
                             for m in [at_most_zero(t, not b, coefficient)]
                             if m is not None}
                            if p[0] in ("next", "continue") else set())
            if maps:
                yield from set.intersection(*maps)


def delegated(t):
    return t[0] == "call" and t[1][-1] == "as_hmapslt1" or \
        t[0] == "super"


def tested(st, v):
    "Why what a path returns or yields may hold a non-positive coefficient."
    objs = each.feeding(st, v)
    terms = [v] if v != NONE else []
    for ev in flat_events(st.events):
        if ev.kind in ("yield", "yieldfrom"):
            terms.append(ev.args[0])
    for t in terms:
        if t[0] == "obj" or delegated(t) or t[0] in ("elem", "sub") and \
                contains(t, delegated):
            continue
        if t[0] == "call" and (t[1][0] == "b" and t[1][1] in (
                "list", "tuple", "iter") or t[1][0] == "g" and
                               "itertools.chain" in t[1][1]):
            continue
        if t[0] == "tuple" and not t[1]:
            continue
        if t[0] == "bin" and contains(t, delegated):
            continue
        if not positive_here(st, t):
            return "gives out %s" % shown(t, 60)
    ids = {o[2] for o in objs}
    for where, facts in stretches(st.events, dict(st.facts)):
        for ev in where:
            if ev.kind in ("append", "yield") or ev.kind == "call" and \
                    ev.args[0][0] == "attr" and ev.args[0][2] == "append":
                if ev.kind == "append" and ev.args[0][0] == "obj" and \
                        ev.args[0][2] not in ids:
                    continue
                item = ev.args[-1] if ev.kind != "call" else \
                    ev.args[1][0]
                if ev.kind == "yield":
                    item = ev.args[0]
                if contains(item, delegated):
                    continue
                if not any(strip(m) == strip(item) for m in known_positive(
                        st, facts, where)):
                    return ("a map of terms is given out without its"
                            " coefficients being tested%s" % each.why(facts),
                            ev.line)
            if ev.kind == "loop" and ev.args[0][0] == "comp" and \
                    ev.args[0][1][2] in ids:
                for p in ev.args[2]:
                    if p[0] != "next":
                        continue
                    e = [x for x in st.objs.get(ev.args[0][1][2], ())
                         if x[0] == "item"]
                    for x in e:
                        if not contains(x[1], delegated) and not any(
                                strip(m) == strip(x[1])
                                for m in known_positive(
                                    st, dict(p[2]), p[1])):
                            return "maps of terms are given out untested"
    return None


def positive_here(st, t):
    return any(strip(m) == strip(t) for m in known_positive(
        st, st.facts, st.events))


def stretches(events, facts):
    yield events, facts
    for ev in events:
        if ev.kind == "loop":
            for p in ev.args[2]:
                if p[0] != "raise":
                    yield from stretches(p[1], dict(p[2]))


def split(chk):
    "Positive and negative terms of a signomial are told apart by sign."
    f, eng, outs = outcomes(chk, M + "Signomial.posy_negy")
    bad, n = None, 0
    for st, v in outs.ret:
        for ev in each.all_loops(st.events):
            for p in ev.args[2]:
                for e in p[1]:
                    if e.kind != "setitem":
                        continue
                    n += 1
                    val = e.args[2]
                    neg = val[0] == "neg" or val[0] == "un" or \
                        val[0] == "bin" and K(-1) in val or val[0] == "call" \
                        and val[1] == ("b", "abs")
                    want = sign_known(p[2])
                    if want is None or neg and want > 0 and \
                            val[0] != "call" or not neg and want < 0:
                        bad = "puts %s with the terms of one sign%s" % (
                            shown(val, 40), each.why(dict(p[2])))
    chk.ob("program", f, "terms told apart by sign", bad is None, bad)
    if not n:
        chk.notes.append("posy_negy does not go through the terms in a loop")


def sign_known(facts):
    for t, b in facts:
        while t[0] == "not":
            t, b = t[1], not b
        if t[0] == "cmp" and t[1] in ("<", "<="):
            if t[2] == K(0) and b:
                return 1
            if t[3] == K(0) and b:
                return -1
            if t[2] == K(0) and not b:
                return -1 if any(
                    x[0] == "cmp" and x[1] == "<" and x[3] == K(0) and y
                    for x, y in facts) else -1
            if t[3] == K(0) and not b:
                return 1
    return None


# ------------------------------------------------------------ closed lists ---
OPEN = {M + "Signomial.diff", M + "SignomialInequality.as_hmapslt1",
        M + "SignomialInequality.sens_from_dual",
        M + "SignomialInequality.sens_from_dual.<locals>.subval"}
BUILD = {"gpkit.nomials.data.NomialData.__init__"}
RECLASS = {M + "Signomial.__init__",
           "gpkit.nomials.variables.Variable.__init__"}
ENABLE = {"gpkit.constraints.tight.Tight.process_result",
          "gpkit.constraints.relax.ConstraintsRelaxedEqually.__init__",
          "gpkit.constraints.relax.ConstraintsRelaxed.__init__"}


def open_gates(chk):
    prog = chk.prog
    may_open = callers_closure(prog, OPEN)
    may_build = callers_closure(prog, BUILD)
    may_class = callers_closure(prog, RECLASS)
    may_enable = callers_closure(prog, ENABLE)
    n = {"open": 0, "build": 0, "class": 0, "enable": 0}
    where = {k: None for k in n}
    for f in prog.all_functions():
        if f.module.name.startswith("gpkit.tests"):
            continue
        own = f.all_params()
        for x in walk_shallow(f.node):
            if isinstance(x, ast.Call):
                v = requirement(prog, f, x)
                if v is not None:
                    n["open"] += 1
                    passed = isinstance(v, ast.Constant) and v.value is True \
                        or isinstance(v, ast.Name) and \
                        v.id == "require_positive" and v.id in own and \
                        not assigned(f, v.id)
                    if not passed and f.qual not in may_open:
                        where["open"] = (f, x.lineno)
            if isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, ast.Store):
                if x.attr in ("hmap", "any_nonpositive_cs"):
                    n["build"] += 1
                    if f.qual not in may_build:
                        where["build"] = (f, x.lineno)
                if x.attr == "__class__":
                    n["class"] += 1
                    if f.qual not in may_class:
                        where["class"] = (f, x.lineno)
            if isinstance(x, ast.Call) and enables(prog, f, x):
                n["enable"] += 1
                if f.qual not in may_enable:
                    where["enable"] = (f, x.lineno)
            if isinstance(x, ast.With) and any(
                    isinstance(i.context_expr, ast.Call) and enables(
                        prog, f, i.context_expr) for i in x.items):
                for y in ast.walk(x):
                    if isinstance(y, (ast.Yield, ast.YieldFrom)):
                        where["enable"] = (f, y.lineno)
    said = {"open": "asks for an expression whose coefficients may be"
                    " non-positive", "build": "gives an expression its terms"
            " past the gate", "class": "turns an expression into another"
            " class", "enable": "enables signomials for others"}
    for k in sorted(n):
        g = where[k]
        chk.ob("closed-list", g[0] if g else "gpkit", "%s: %i sites" % (
            k, n[k]) if g is None else k, g is None and n[k] > 0,
               said[k], line=g and g[1])


def requirement(prog, f, call):
    "The node given as require_positive, if one is."
    for k in call.keywords:
        if k.arg == "require_positive":
            return k.value
    name = call.func.id if isinstance(call.func, ast.Name) else None
    q = prog.resolve(f.module, name) if name and hasattr(
        prog, "resolve") else None
    if name in ("Signomial", "Posynomial", "Monomial") and \
            len(call.args) >= 3:
        return call.args[2]
    if isinstance(call.func, ast.Attribute) and call.func.attr == "sub" and \
            len(call.args) == 2 and not any(
                isinstance(a, ast.Starred) for a in call.args):
        a = call.args[1]
        # a map's own sub takes the variables second
        if isinstance(a, ast.Constant) and isinstance(a.value, bool) or \
                isinstance(a, ast.Name) and a.id == "require_positive":
            return a
    return None


def assigned(f, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(
        x.ctx, ast.Store) for x in walk_shallow(f.node))


def enables(prog, f, call):
    fn = call.func
    name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(
        fn, ast.Attribute) else None
    return name == "SignomialsEnabled"


# ---------------------------------------------------------- unary operators --
def unary(chk):
    """A unary operator's method that gives NotImplemented does not raise:
    Python hands the value out."""
    for q, c in sorted(chk.prog.classes.items()):
        if not q.startswith("gpkit.nomials."):
            continue
        for name in ("__neg__", "__pos__", "__abs__", "__invert__"):
            if name not in c.methods:
                continue
            f, eng, outs = outcomes(chk, c.methods[name].qual)
            bad = any(v == ("b", "NotImplemented") or contains(
                v, lambda t: t == ("b", "NotImplemented"))
                      for _, v in outs.ret)
            chk.ob("refused", f, "unary operator", not bad,
                   "gives out NotImplemented instead of raising")
