"""C24: must-write analysis over the linked variables.  Every iteration of the
loops that evaluate linked variables must store, under the variable, a value
that is the result of a call of that variable's own function on a dictionary
of the current constants, and must set or remove its gradients last; values
kept from an earlier evaluation have to be removed before the inputs are
copied; and wherever a program is formed the evaluation comes between the
point's values and the forming."""
import ast

from ..flow import K, contains, flat_events, strip, subterms
from . import each
from .c11 import paths
from .common import shown
from .each import all_loops

TECHNIQUE = "must-write and value-origin analysis of linked variables"
ASSUMPTIONS = ["the user's linking functions do not write to their argument"]
EV = "gpkit.constraints.prog_factories.evaluate_linked"
KD = "gpkit.keydict.KeyDict"


def run(chk):
    evaluate(chk)
    sweeps(chk)
    programs(chk)
    relaxing(chk)
    sorting(chk)
    elements(chk)
    late(chk)
    chk.need("linked-value", 1)
    chk.need("linked-evaluated-first", 2)


class Linked:
    "The terms that stand for a generic linked variable and its function."

    def __init__(self, src):
        self.src = src

    def is_src(self, t):
        return t == self.src

    def of(self, t):
        return each.over(t, self.is_src) is not None

    def key(self, t):
        if t[0] == "key":
            return self.of(t[1])
        if t[0] == "elem":
            return self.of(t[1]) and not self.pairs(t[1])
        return t[0] == "sub" and t[2] == K(0) and t[1][0] == "elem" and \
            self.pairs(t[1][1])

    def pairs(self, t):
        return contains(t, lambda x: x[0] == "attr" and x[2] == "items")

    def fn(self, t):
        "The variable's own function, its vector's, or None."
        if t[0] == "val" and self.of(t[1]):
            return "own"
        if t[0] == "sub" and t[1] == self.src and self.key(t[2]):
            return "own"
        if t[0] == "sub" and t[2] == K(1) and t[1][0] == "elem" and \
                self.pairs(t[1][1]):
            return "own"
        if t[0] == "attr" and t[2] == "original_fn" and t[1][0] == "attr" \
                and t[1][2] == "veckey" and self.key(t[1][1]):
            return "vector"
        return None


def nested(v):
    "Indexing by one index after another is indexing by all of them."
    if v[0] == "loopout" and len(v) == 6 and len(v[5]) == 1:
        _, name, site, src, start, (step,) = v
        if step[0] == "sub" and step[1] == ("loopvar", name, site) and \
                step[2] == ("elem", src):
            return ("sub", start, src)
    if v[0] == "call" and v[1] == ("g", "functools.reduce") and \
            len(v[2]) == 3 and v[2][0] == ("g", "operator.getitem"):
        return ("sub", v[2][2], v[2][1])
    return v


class Origin:
    "Whether a value is what a variable's function gives."

    def __init__(self, lk, inputs, st, loops):
        self.lk, self.inputs, self.st, self.loops = lk, inputs, st, loops
        self.calls = []

    def stored(self, obj):
        "Values put into a local dictionary of arrays."
        out = []
        for l in self.loops:
            for p in l.args[2]:
                out += [e.args[2] for e in flat_events(p[1])
                        if e.kind == "setitem" and e.args[0] == obj]
        return out

    def problem(self, v, idx=False, depth=0):
        "None if the value is right, 'unclear', or what it is instead."
        if depth > 8:
            return "unclear"
        lk = self.lk
        v = nested(v)
        if v[0] == "attr" and v[2] in ("x", "real"):
            return self.problem(v[1], idx, depth + 1)
        if v[0] in ("getattr",) and v[2] in ("x", K("x")):
            return self.problem(v[1], idx, depth + 1)
        if v[0] == "call" and v[1] == ("b", "getattr") and \
                K("x") in v[2]:
            return self.problem(v[2][0], idx, depth + 1)
        if v[0] == "sub":
            if v[2][0] == "attr" and v[2][2] == "idx":
                if not lk.key(v[2][1]):
                    return "the element of another variable"
                return self.problem(v[1], True, depth + 1)
            base = v[1][1] if v[1][0] == "attr" and v[1][2] == "flat" else v[1]
            if v[2][0] == "const" and not self.problem(base, True, depth + 1):
                return "the same element for each index"
            return "unclear"
        if v[0] == "call" and v[1][0] == "g" and len(v[2]) == 2 and \
                v[1][1].rpartition(".")[2] == "clean_value":
            if not lk.key(v[2][0]) and v[2][0] != ("attr", v[2][0], "key"):
                return "unclear"
            return self.problem(v[2][1], idx, depth + 1)
        if v[0] == "call" and v[1][0] == "g" and len(v[2]) == 2 and \
                v[1][1].rpartition(".")[2] == "element":
            return self.problem(("sub", v[2][0], v[2][1]), idx, depth + 1)
        if v[0] == "call" and v[1][0] == "g" and len(v[2]) >= 1 and \
                v[1][1].rpartition(".")[2] in ("array", "asarray",
                                               "maybe_flatten"):
            return self.problem(v[2][0], idx, depth + 1)
        if v[0] == "loopheap" and v[1][0][0] == "obj":
            vals = self.stored(v[1][0])
            if not vals:
                return "unclear"
            key = v[1][1]
            if not (key[0] == "k" and key[1][0] == "attr" and
                    key[1][2] == "veckey" and lk.key(key[1][1])):
                return "unclear"
            for x in vals:
                bad = self.problem(x, idx, depth + 1)
                if bad:
                    return bad
            return None
        if v[0] == "call":
            kind = lk.fn(v[1])
            if kind is None:
                if v[1][0] == "g" or v[1][0] == "b" or v[1][0] == "p":
                    return "unclear"
                return "unclear"
            if kind == "vector" and not idx:
                return "the value of the whole vector"
            if len(v[2]) != 1 or v[3]:
                return "unclear"
            self.calls.append(v)
            return self.inputs(v[2][0])
        for t in subterms(v):
            if t[0] == "call" and lk.fn(t[1]):
                return "unclear"
        if v[0] in ("loopvar", "loopout", "phi", "loopheap", "obj", "default",
                    "big"):
            return "unclear" if v[0] != "loopvar" else "left over from an" \
                " earlier variable (%s)" % shown(v, 60)
        return "not the value of the variable's function: %s" % shown(v, 80)


def evaluate(chk):
    f = chk.prog.functions.get(EV)
    if f is None:
        chk.notes.append("undecided: no evaluate_linked")
        return
    names = f.all_params()
    if len(names) < 2:
        chk.notes.append("undecided: evaluate_linked's parameters")
        return
    consts, lk = ("p", names[0]), Linked(("p", names[1]))
    outs = paths(chk, f)
    bad = {"linked-value": [], "linked-gradient": [], "linked-stale": [],
           "linked-all": [], "linked-error": []}
    count = 0
    for st, _ in outs.ret:
        loops = list(all_loops(st.events))

        def from_consts(t, depth=0):
            "A dictionary made from the constants."
            if t == consts:
                return True
            if t[0] == "new" and t[1] == KD and len(t[2]) == 1:
                return from_consts(t[2][0], depth + 1)
            if t[0] == "new" and t[1] == KD and not t[2] and depth < 3:
                return any(
                    e.kind == "call" and strip(e.args[0]) == (
                        "attr", strip(t), "update") and len(e.args[1]) == 1
                    and from_consts(e.args[1][0], depth + 1)
                    for e in flat_events(st.events))
            if t[0] == "call" and t[2] and t[1][0] in ("b", "g") and \
                    t[1][1].rpartition(".")[2] in ("dict", "copy", "deepcopy"):
                return from_consts(t[2][0], depth + 1)
            if t[0] == "call" and t[1] == ("attr", consts, "copy"):
                return True
            if t[0] == "obj":
                ents = st.objs.get(t[2], ())
                return bool(ents) and all(
                    any(contains(x, lambda y: y == consts)
                        for x in list(e[1:-1]) + [l[0] for l in e[-1]])
                    for e in ents)
            if t[0] == "loopvar" and depth < 3:
                vals = carried(loops, t)
                return bool(vals) and all(from_consts(v, depth + 1)
                                          for v in vals)
            return False

        def inputs(t):
            return None if from_consts(t) else \
                "worked out from something else than the constants: %s" % \
                shown(t, 60)

        def store(ev):
            return ev.kind == "setitem" and ev.args[0] == consts and \
                lk.key(ev.args[1])
        covs = each.reaches(st, st.events, lk.is_src, store)
        for cov in covs:
            count += cov.covering
            bad["linked-all"] += cov.problems
        pure = any(t == lk.src and not b or t == ("not", lk.src) and b or
                   t[0] == "not" and t[1] == lk.src and b
                   for t, b in st.facts.items()) if hasattr(
                       st, "facts") else False
        if not any(c.covering for c in covs) and not pure and \
                not (len(st.events) and _empty(st, lk)):
            updates = [e for e in flat_events(st.events) if e.kind == "call"
                       and e.args[0] == ("attr", consts, "update")]
            if updates:
                chk.notes.append("undecided: linked values stored by update()")
            else:
                bad["linked-all"].append((f.node.lineno, "returns without"
                                          " storing a value for each"))
        for l in loops:
            if l.args[0][0] == "comp":
                continue
            if not any(store(e) for p in l.args[2] for e in p[1]):
                continue
            for p in l.args[2]:
                if p[0] == "raise":
                    continue
                check_path(chk, p, l, lk, st, loops, store, inputs, bad)
        bad["linked-stale"] += stale(st, consts, lk, loops)
    for rule in sorted(bad):
        line, why = bad[rule][0] if bad[rule] else (None, None)
        chk.ob(rule, f, "linked variables", not bad[rule], why, line)
    chk.stats["loops over linked variables"] = count
    # a function that fails in the plain evaluation ends the evaluation
    raised = [1 for _, e in outs.exc]
    chk.ob("linked-error", f, "failing functions", bool(raised),
           "no exception of a linking function can leave")


def _empty(st, lk):
    return any(strip(t) == lk.src and b is False for t, b in st.facts.items())


def carried(loops, var):
    "The values a loop variable can hold at the head of an iteration."
    out = []
    for l in loops:
        if l.args[1] == var[2]:
            for p in l.args[2]:
                if len(p) > 3 and p[0] in ("next", "continue"):
                    c = p[3] if isinstance(p[3], dict) else dict(p[3])
                    for k, v in c.items():
                        if k == var[1] or isinstance(k, tuple) and \
                                k[-1] == var[1]:
                            if v != var and v != K(None):
                                out.append(v)
    return out


def check_path(chk, p, l, lk, st, loops, store, inputs, bad):
    evs = list(p[1])
    last = None
    for i, e in enumerate(evs):
        if store(e):
            last = i
    if last is None:
        return
    org = Origin(lk, inputs, st, loops)
    v = evs[last].args[2]
    why = org.problem(v)
    if why == "unclear":
        chk.notes.append("undecided: the value %s" % shown(v, 80))
    elif why:
        bad["linked-value"].append((evs[last].line, "stores " + why
                                    if not why.startswith("not") else
                                    "what is stored is " + why))
    elif v[0] == "call" and not taken(v) and any(
            differentiating(st, a) for c in org.calls for a in c[2]):
        bad["linked-value"].append((
            evs[last].line, "what is stored was worked out from numbers that"
            " carry derivatives, and is such a number itself"))
    final = None
    for i, e in enumerate(flat_events(evs)):
        g = gradient_event(e, lk)
        if g:
            final = g
    if final is None and any(
            t[0] == "in" and t[1] == K("gradients") and not b and
            t[2][0] == "attr" and t[2][2] == "descr" and lk.key(t[2][1])
            for t, b in dict(p[2]).items()):
        return                              # there is none
    if final is None:
        bad["linked-gradient"].append((
            evs[last].line, "an iteration leaves an earlier gradient in"
            " place%s" % each.why(dict(p[2]))))
        return
    differentiated = v[0] == "attr" and v[2] == "x" or v[0] == "getattr"
    if final[0] == "set":
        g = final[1]
        froms = {t[1][1] for x in values_in(st, g) for t in subterms(x)
                 if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "d"}
        if froms:
            own = Origin(lk, inputs, st, loops)
            base = v[1] if differentiated else v
            if not all(x == base or own.problem(x) in (None, "unclear")
                       for x in froms):
                bad["linked-gradient"].append((
                    evs[last].line, "the gradient is of something else"))
            elif not differentiated and base not in froms:
                bad["linked-gradient"].append((
                    evs[last].line, "the gradient kept is not that of the"
                    " value stored"))
        else:
            if g[0] in ("obj",) and not st.objs.get(g[2]):
                return                      # an empty one
            chk.notes.append("undecided: the gradients %s" % shown(g, 80))


def taken(v):
    "The plain number is taken out of it."
    return contains(v, lambda t: t[0] in ("attr", "getattr") and
                    t[2] in ("x", K("x"), "real", "nominal_value"))


def differentiating(st, t):
    "A dictionary of numbers that carry derivatives."
    def ad(x):
        return x[0] == "g" and x[1].rpartition(".")[2] in ("adnumber",
                                                           "adfloat")
    if contains(t, ad):
        return True
    return any(contains(x, ad) for o in subterms(t) if o[0] == "obj"
               for e in st.objs.get(o[2], ())
               for x in list(e[1:-1]) + [l[0] for l in e[-1]])


def values_in(st, g):
    out = [g]
    if g[0] == "obj":
        for e in st.objs.get(g[2], ()):
            out += list(e[1:-1]) + [x[0] for x in e[-1]]
    return out


def gradient_event(e, lk):
    def descr(t):
        return t[0] == "attr" and t[2] == "descr" and lk.key(t[1])
    if e.kind == "setitem" and descr(e.args[0]) and \
            e.args[1] == K("gradients"):
        return "set", e.args[2]
    if e.kind == "delitem" and descr(e.args[0]) and \
            e.args[1] == K("gradients"):
        return "gone", None
    if e.kind == "call" and e.args[0][0] == "attr" and \
            e.args[0][2] == "pop" and descr(e.args[0][1]) and \
            e.args[1] and e.args[1][0] == K("gradients"):
        return "gone", None
    if e.kind == "set" and e.args[1] == "gradients" and lk.key(e.args[0]):
        return "set", e.args[2]
    return None


def stale(st, consts, lk, loops):
    """Before the first copy of the constants is made for the functions, every
    linked variable has to be out of them."""
    def removes(e):
        if e.kind == "delitem":
            return e.args[0] == consts and lk.key(e.args[1])
        return e.kind == "call" and e.args[0] == ("attr", consts, "pop") and \
            e.args[1] and lk.key(e.args[1][0])

    def emptied(l):
        return each.over_in(st, l.args[0], lk.is_src) == "whole" and all(
            any(removes(e) for e in flat_events(p[1])) or
            any(t[0] == "in" and lk.key(t[1]) and t[2] == consts and not b
                for t, b in dict(p[2]).items())
            for p in l.args[2] if p[0] != "raise")
    clean = False
    for e in st.events:
        if e.kind == "loop" and e.args[0][0] != "comp":
            if emptied(e):
                clean = True
                continue
        copied = copies(e, consts)
        if copied and not clean:
            if filtered(e, lk):
                continue
            return [(e.line, "the constants are copied for the functions with"
                     " the values of an earlier evaluation still in them")]
    return []


def copies(e, consts):
    if e.kind == "new" and any(a == consts for t in e.args
                               for a in _args(t)):
        return True
    if e.kind == "loop" and e.args[0][0] == "comp":
        return any(x.kind == "call" and x.args[0][0] == "g" and
                   x.args[0][1].endswith("adnumber")
                   for p in e.args[2] for x in flat_events(p[1]))
    return False


def _args(t):
    if isinstance(t, tuple) and t and t[0] == "new" and len(t) > 2:
        return t[2]
    return ()


def filtered(e, lk):
    "A comprehension that leaves the linked variables out."
    if e.kind != "loop":
        return False
    return all(any(t[0] == "in" and each.over(t[2], lk.is_src) and not b
                   for t, b in dict(p[2]).items())
               for p in e.args[2] if p[0] == "next")


# --- where programs are formed

def false_in(facts, t):
    return any(x == t and not b or x == ("not", t) and b or
               x[0] == "cmp" and contains(x, lambda y: y == t)
               for x, b in facts.items())


def sweeps(chk):
    """Functions with both constants and linked variables that hand the
    constants to the function that forms a program."""
    for f in chk.prog.all_functions():
        ps = f.all_params()
        if ".tests." in f.qual or "genfunction" not in ps or \
                "constants" not in ps or "linked" not in ps:
            continue
        consts, linked = ("p", "constants"), ("p", "linked")
        bad, n = [], 0
        for st, _ in paths(chk, f).ret:
            for l in all_loops(st.events):
                for p in l.args[2]:
                    if not any(forms(e) for e in p[1]):
                        continue
                    n += 1
                    bad += in_order(p, consts, linked, st)
        if not n:
            chk.notes.append("undecided: no pass of %s forms a program" %
                             f.qual)
            continue
        line, why = bad[0] if bad else (None, None)
        chk.ob("linked-evaluated-first", f, "a pass of the sweep", not bad,
               why, line)


def forms(e):
    return e.kind == "call" and e.args[0] == ("p", "genfunction")


def in_order(p, consts, linked, st):
    """values of the point -> linked values -> program"""
    facts = dict(p[2])
    facts.update(st.facts)
    state = "old"
    for e in flat_events(p[1]):
        if e.kind == "call" and e.args[0] == ("attr", consts, "update") or \
                e.kind == "setitem" and e.args[0] == consts and \
                state == "old":
            state = "point"
        elif e.kind == "call" and e.args[0] == ("g", EV):
            given = e.args[1] + tuple(v for _, v in e.args[2])
            if consts not in given or linked not in given:
                return [(e.line, "the linked variables are evaluated with"
                         " other values")]
            if state == "old":
                return [(e.line, "the linked variables are evaluated before"
                         " the values of the point are set")]
            state = "done"
        elif forms(e):
            if state == "point" and not false_in(facts, linked):
                return [(e.line, "the program is formed without evaluating"
                         " the linked variables at this point%s" %
                         each.why(dict(p[2])))]
            if state == "old":
                return [(e.line, "the program is formed with the values of"
                         " another point")]
            given = e.args[1] + tuple(v for _, v in e.args[2])
            if consts not in given:
                return [(e.line, "the program is formed with other constants"
                         " than those of the point")]
    return []


def programs(chk):
    "Where the parsed constants go into a program, linked values go along."
    from .allrun import everything
    for r in everything(chk):
        f = r.func
        if f.module.name != "gpkit.constraints.prog_factories":
            continue
        bad, n = [], 0
        for st in r.states:
            got = None
            facts = st.facts
            for e in flat_events(st.events):
                if e.kind != "call":
                    continue
                if e.args[0][0] == "g" and e.args[0][1].endswith(
                        ".parse_subs"):
                    got = ("call", e.args[0], e.args[1], e.args[2])
                    done = False
                elif got and e.args[0] == ("g", EV):
                    given = e.args[1] + tuple(v for _, v in e.args[2])
                    if ("sub", got, K(0)) in given and \
                            ("sub", got, K(2)) in given:
                        done = True
                    else:
                        bad.append((e.line, "evaluates with other values"
                                    " than those parsed"))
                elif got and ("sub", got, K(0)) in e.args[1] and \
                        e.args[0][0] in ("p", "free", "attr", "closure"):
                    n += 1
                    if not done and not false_in(facts, ("sub", got, K(2))):
                        bad.append((e.line, "forms a program without its"
                                    " linked variables being evaluated"))
        if n:
            line, why = bad[0] if bad else (None, None)
            chk.ob("linked-evaluated-first", f, "forming a program", not bad,
                   why, line)


def relaxing(chk):
    "Relaxed constants: the linked ones get the value of their function."
    f = chk.prog.functions.get(
        "gpkit.constraints.relax.ConstantsRelaxed.__init__")
    if f is None:
        return
    from .allrun import everything
    run_ = [r for r in everything(chk) if r.func is f][0]
    bad, n = [], 0
    for st in run_.states:
        got = None
        for e in st.events:
            if e.kind == "call" and e.args[0][0] == "g" and \
                    e.args[0][1].endswith(".parse_subs"):
                got = ("call", e.args[0], e.args[1], e.args[2])
        if got is None:
            continue
        consts, lk = ("sub", got, K(0)), Linked(("sub", got, K(2)))
        ok = None
        for e in flat_events(st.events):
            if e.kind == "setitem" and e.args[0] == consts and \
                    lk.key(e.args[1]):
                ok = lk.fn(e.args[2][1]) is not None if \
                    e.args[2][0] == "call" else False
            if e.kind == "call" and e.args[0] == ("attr", consts, "update") \
                    and e.args[1] and e.args[1][0][0] == "obj":
                for x in st.objs.get(e.args[1][0][2], ()):
                    if x[0] == "kv" and lk.key(x[1]):
                        ok = x[2][0] == "call" and lk.fn(x[2][1]) is not None
            if e.kind == "call" and e.args[0] == ("g", EV):
                ok = True
        n += 1
        if ok is None and not false_in(st.facts, lk.src) and run_.whole:
            bad.append((f.node.lineno, "goes on without evaluating the linked"
                        " variables"))
        elif ok is False:
            bad.append((f.node.lineno, "a linked variable gets something else"
                        " than the value of its function"))
    if n:
        line, why = bad[0] if bad else (None, None)
        chk.ob("linked-relaxed", f, "relaxing linked variables", not bad, why,
               line)


# --- which substitutions are linked

def callable_fact(t):
    if t[0] == "hasattr" and t[2] in ("__call__", K("__call__")):
        return t[1]
    if t[0] == "call" and t[1] == ("b", "callable") and len(t[2]) == 1:
        return t[2][0]
    return None


def has_key(t):
    return t[0] == "hasattr" and t[2] in ("key", K("key"))


def sorting(chk):
    f = chk.prog.functions.get("gpkit.nomials.substitution.append_sub")
    if f is None:
        return
    ps = f.all_params()
    kinds = [("p", n) for n in ps[2:]]
    bad, n = [], 0
    for st, _ in paths(chk, f).ret:
        for l in all_loops(st.events):
            if not any(e.kind == "setitem" and e.args[0] in kinds
                       for p in l.args[2] for e in p[1]):
                continue
            for p in l.args[2]:
                if p[0] == "raise":
                    continue
                facts = dict(p[2])
                fn = [t for t, b in facts.items()
                      if callable_fact(t) is not None and b]
                if not fn or any(has_key(t) and b for t, b in facts.items()):
                    continue
                n += 1
                into = [e for e in p[1] if e.kind == "setitem" and
                        e.args[0] in kinds]
                if not into or into[-1].args[0] != kinds[-1]:
                    bad.append((l.line, "a linking function is not kept among"
                                " the linked variables%s" % each.why(facts)))
                elif into[-1].args[2] != callable_fact(fn[0]):
                    bad.append((l.line, "another value is kept for a linking"
                                " function"))
    if n:
        line, why = bad[0] if bad else (None, None)
        chk.ob("linked-parsed", f, "functions among substitutions", not bad,
               why, line)
    else:
        chk.notes.append("undecided: append_sub does not tell functions")


def uncounted(v):
    "Without the lengths taken in it."
    if not isinstance(v, tuple):
        return v
    if len(v) == 4 and v[0] == "call" and v[1] == ("b", "len"):
        return K(0)
    return tuple(uncounted(x) for x in v)


def elements(chk):
    "The function of one element of a linked vector."
    for f in chk.prog.all_functions():
        if f.parent is None or f.parent.qual != \
                "gpkit.nomials.variables.veclinkedfn":
            continue
        par = f.parent.all_params()
        bad = None
        for st, v in paths(chk, f).ret:
            v = nested(v)
            if v[0] == "call" and v[1][0] == "g" and len(v[2]) == 2 and \
                    v[1][1].rpartition(".")[2] == "element":
                v = ("sub", v[2][0], v[2][1])
            fn = [t for t in subterms(v) if t[0] == "call" and t[2] ==
                  (("p", f.all_params()[0]),) and t[1] in
                  (("p", par[0]), ("free", par[0]))]
            idx = v[0] == "sub" and v[2] in (("p", par[1]), ("free", par[1]))
            if not fn or not idx:
                idx = contains(uncounted(v), lambda t: t in (
                    ("p", par[1]), ("free", par[1])))
                if not fn or not idx:
                    bad = "gives %s" % shown(v, 80)
        chk.ob("linked-element", f, "element of a linked vector",
               bad is None, bad)


def late(chk):
    """A function defined in a loop or comprehension and kept beyond its round
    finds the loop's variables as the last round left them."""
    n = 0
    for f in chk.prog.all_functions():
        if ".tests." in f.qual or not isinstance(
                f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for loop in own(f.node):
            if not isinstance(loop, (ast.For, ast.While)):
                continue
            names = {x.id for b in [loop] for x in ast.walk(b)
                     if isinstance(x, ast.Name) and
                     isinstance(x.ctx, ast.Store)}
            for fn, place in kept_functions(loop):
                n += 1
                args = fn.args
                mine = {a.arg for a in args.args + args.kwonlyargs +
                        args.posonlyargs}
                mine |= {x.id for x in ast.walk(fn) if
                         isinstance(x, ast.Name) and
                         isinstance(x.ctx, ast.Store)}
                body = fn.body if isinstance(fn.body, list) else [fn.body]
                used = {x.id for b in body for x in ast.walk(b)
                        if isinstance(x, ast.Name) and
                        isinstance(x.ctx, ast.Load)}
                shared = sorted(used & names - mine)
                chk.ob("linked-element", f, "function kept from a loop",
                       not shared, shared and
                       "%s is looked up when the function is called, by when"
                       " the loop has changed it" % ", ".join(shared),
                       place.lineno)
    return n


def own(node):
    "The nodes of a function that are not another function's."
    todo = list(ast.iter_child_nodes(node))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(x))


def kept_functions(loop):
    "Functions made in a loop that are stored in something."
    defs = {x.name: x for b in loop.body for x in ast.walk(b)
            if isinstance(x, ast.FunctionDef)}
    for b in loop.body:
        for x in ast.walk(b):
            if not isinstance(x, ast.Assign) or not any(
                    isinstance(t, (ast.Subscript, ast.Attribute))
                    for t in x.targets):
                continue
            v = x.value
            for y in ([v] if not isinstance(v, (ast.IfExp, ast.Tuple))
                      else ast.walk(v)):
                if isinstance(y, ast.Lambda):
                    yield y, x
                elif isinstance(y, ast.Name) and y.id in defs:
                    yield defs[y.id], x
