"""C13: guard and polarity dataflow.  The check must run, raising, on every
path through the forming of a program unless its switch is false, and the
switch must be on by default and handed on unchanged everywhere.  Inside it,
each variable's missing directions are recorded unless a fact on the path says
otherwise, and that fact can only come from a monomial outside every equality
whose exponent has the right sign; equalities discharge a direction only when
everything they need - computed from the signs under which each set was
filled - is itself not missing."""
import ast

from ..flow import K, NONE, contains, flat_events, is_const, strip, subterms
from ..model import AnalysisBroken, walk_shallow
from . import each
from .c10 import P, SELF, arg, outcomes, selfattr, terms_of
from .common import shown

TECHNIQUE = "path-fact dataflow with exponent-sign polarity"
ASSUMPTIONS = ["exponent vectors hold no zero exponents"]
GP = "gpkit.constraints.gp."
ZERO = (K(0), K(0.0))
OTHER = {"upper": "lower", "lower": "upper"}
FLIP = {"+": "-", "-": "+"}


def run(chk):
    forming(chk)
    default(chk)
    missing(chk)
    equalities(chk)
    chains(chk)
    tags(chk)


def negated(t, b):
    while t[0] == "not":
        t, b = t[1], not b
    return t, b


def sign_of(facts, is_exp):
    "The sign that the facts give to a term for which is_exp holds."
    for t, b in facts.items():
        t, b = negated(t, b)
        if t[0] != "cmp":
            continue
        op, l, r = t[1:]
        if l in ZERO and is_exp(r) and op in ("<", "<="):
            return "+" if b else "-"
        if r in ZERO and is_exp(l) and op in ("<", "<="):
            return "-" if b else "+"
    return None


# ------------------------------------------------------ the check is run ----
def forming(chk):
    f, eng, outs = outcomes(chk, GP + "GeometricProgram.__init__")
    bad = None
    for st, _ in outs.ret:
        off = [t for t, b in st.facts.items()
               if strip(t) == ("p", "checkbounds") and b is False]
        calls = []
        for n, ev in enumerate(flat_events(st.events)):
            if ev.kind != "call":
                continue
            fn = ev.args[0]
            if fn == ("attr", SELF, "gen"):
                calls.append(("gen", None))
            if fn[0] == "attr" and fn[2] == "check_bounds":
                calls.append(("check", ev))
        if off:
            continue
        at = [i for i, c in enumerate(calls) if c[0] == "check"]
        if not at:
            bad = "a program is formed unchecked%s" % each.why(st.facts)
        for i in at:
            ev = calls[i][1]
            err = dict(ev.args[2]).get("err_on_missing_bounds")
            if err is None and ev.args[1]:
                err = ev.args[1][-1]
            if err not in (K(True), K(1), ("p", "checkbounds")):
                bad = "missing bounds are looked for but not refused"
            elif ("gen", None) not in calls[:i]:
                bad = "bounds are checked before the program is built"
    chk.ob("checked", f, "self.check_bounds", bad is None, bad)


def default(chk):
    "On unless the caller said otherwise."
    prog = chk.prog
    n = 0
    for f in prog.all_functions():
        a = f.node.args
        pos = list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)))
        for p, d in pos + list(zip(a.kwonlyargs, a.kw_defaults)):
            if p.arg != "checkbounds" or d is None:
                continue
            n += 1
            ok = isinstance(d, ast.Constant) and d.value in (True, 1)
            chk.ob("on-by-default", f, "checkbounds=", ok,
                   "the check is off by default", line=f.node.lineno)
        for node in walk_shallow(f.node):
            if isinstance(node, ast.Call):
                for k in node.keywords:
                    if k.arg == "checkbounds" and isinstance(k.value,
                                                             ast.Constant):
                        chk.ob("handed-on", f, "checkbounds=%r" %
                               k.value.value, bool(k.value.value),
                               "the check is switched off", line=node.lineno)
            elif isinstance(node, ast.Constant) and node.value in (
                    "checkbounds",):
                par = [x for x in walk_shallow(f.node) if isinstance(
                    x, (ast.Dict, ast.Call, ast.Assign)) and
                    any(y is node for y in ast.walk(x))]
                off = any(isinstance(y, ast.Constant) and y.value is False
                          for x in par if isinstance(x, (ast.Assign, ast.Call))
                          for y in ast.walk(x))
                chk.ob("handed-on", f, "'checkbounds'", not off,
                       "the check is switched off", line=node.lineno)
    if n < 2:
        raise AnalysisBroken("found %i checkbounds parameters" % n)
    # a function that has the switch hands it on to the programs it forms
    f, eng, outs = outcomes(chk, "gpkit.constraints.sgp"
                            ".SequentialGeometricProgram.__init__")
    made, bad = 0, None
    for t in terms_of(outs):
        if t[0] == "new" and t[1] == GP + "GeometricProgram":
            made += 1
            got = arg(t, 3, "checkbounds")
            if got is None:
                kw = [k for k, v in t[3] if k is None or k == "**"]
                bad = bad if kw else "its program is always checked or never"
            if got is not None and strip(got) not in (
                    ("p", "checkbounds"), K(True)):
                bad = "its program is checked when %s" % shown(got, 60)
    chk.ob("handed-on", f, "checkbounds of the inner program",
           made > 0 and bad is None, bad or "no program is formed")
    if not any("checkbounds" == k.arg for k in f.node.args.kwonlyargs +
               f.node.args.args):
        chk.ob("handed-on", f, "checkbounds", False, "the switch is gone")
    # whatever forms programs passes its keywords on
    for f in prog.all_functions():
        if f.name != "progify":
            continue
        inner = [g for g in prog.all_functions()
                 if g.qual.startswith(f.qual + ".<locals>.")]
        for g in inner:
            if not g.node.args.kwarg:
                continue
            name = g.node.args.kwarg.arg
            dels = [n for n in walk_shallow(g.node) if isinstance(n, ast.Call)
                    and any(k.arg is None and isinstance(k.value, ast.Name)
                            and k.value.id == name for k in n.keywords)]
            chk.ob("handed-on", g, "**" + name, bool(dels),
                   "keywords are not handed to the program")


# ---------------------------------------------- every variable, both ways ----
def loops_by_id(events):
    return {ev.args[1]: ev for ev in each.all_loops(events)
            if ev.args[0][0] != "comp"}


def truths(term, events, st, depth=0):
    """The circumstances under which a term is true: a list of fact dicts, or
    None when not understood."""
    term = strip(term)
    if term[0] == "loopvar":
        return [{}]        # left over from an earlier pass
    if term[0] == "loopout" and len(term) == 6 and depth < 3:
        name, loopid, _, init, _ = term[1:]
        loops = loops_by_id(events)
        if loopid not in loops:
            return None
        out = []
        if init not in (K(False), K(None), K(0)) and init[0] != "missing":
            more = truths(init, events, st, depth + 1)
            if more is None:
                return None
            out += more
        for p in loops[loopid].args[2]:
            if p[0] in ("raise", "return") or len(p) < 4:
                continue
            for n, v in p[3]:
                if n != name:
                    continue
                facts = dict(p[2])
                v = strip(v)
                if v in (K(False), K(0), NONE):
                    continue
                if v[0] == "loopout" or v[0] == "loopvar":
                    more = truths(v, p[1], st, depth + 1) \
                        if v[0] == "loopout" else []
                    if more is None:
                        return None
                    out += [dict(facts, **{}) | m for m in more]
                    continue
                if not is_const(v):
                    facts[v] = True
                out.append(facts)
        return out
    if term[0] == "call" and term[1] == ("b", "any") and len(term[2]) == 1 \
            and term[2][0][0] == "obj":
        obj = term[2][0]
        ents = st.objs.get(obj[2], ())
        comp = [ev for ev in each.all_loops(events)
                if ev.args[0] == ("comp", obj)]
        if not all(e[0] == "item" for e in ents):
            return None
        out = [{strip(e[1]): True} for e in ents if not comp]
        for ev in comp:
            for p in ev.args[2]:
                if p[0] != "next" or len(p) < 4:
                    continue
                e, facts = p[3], dict(p[2])
                if is_const(e[1]) and not e[1][2]:
                    continue
                if not is_const(e[1]):
                    t, b = negated(strip(e[1]), True)
                    if any(strip(x) == t and y is not b
                           for x, y in map(lambda z: negated(*z), p[2])):
                        continue    # false on this path
                    add(facts, e[1], True)
                for l in e[-1]:   # filtered before it came here
                    if l[0][0] == "obj":
                        facts.update(kept_by(l[0], events))
                out.append(facts)
        return out
    if term[0] == "obj":
        out = []
        for ev in each.all_loops(events):
            for p in ev.args[2]:
                if any(x.kind in ("append", "extend") and
                       x.args[0][:3] == term[:3] for x in p[1]):
                    out.append(dict(p[2]))
        for e in st.objs.get(term[2], ()):
            comp = [ev for ev in each.all_loops(events)
                    if ev.args[0] == ("comp", term)]
            for ev in comp:
                out += [dict(p[2]) for p in ev.args[2] if p[0] == "next"]
        return out or None
    if term[0] in ("cmp", "in"):
        return [{term: True}]
    return None


def kept_by(obj, events):
    "What is known of every element that a comprehension kept."
    got = [dict(p[2]) for ev in each.all_loops(events)
           if ev.args[0] == ("comp", obj) for p in ev.args[2]
           if p[0] == "next"]
    return {t: b for t, b in got[0].items()
            if all(g.get(t) is b for g in got)} if got else {}


def add(facts, t, b):
    "A conjunction that holds makes its parts hold."
    t, b = negated(strip(t), b)
    if t[0] == "and" and b:
        for x in t[1]:
            add(facts, x, True)
    else:
        facts[t] = b


def missing(chk):
    f, eng, outs = outcomes(chk, GP + "GeometricProgram.check_bounds")
    varlocs = selfattr("varlocs")

    def is_var(t):
        return t[0] in ("key", "elem") and each.over(t[1], varlocs) or \
            t[0] == "sub" and t[2] == K(0) and t[1][0] == "elem" and \
            each.over(t[1][1], varlocs)

    def is_exp(t):
        return contains(t, lambda x: x[0] == "attr" and x[2] == "exps") or \
            contains(t, lambda x: x[0] == "attr" and x[2] == "A")

    def outside(facts):
        for t, b in facts.items():
            t, b = negated(t, b)
            if t[0] == "in" and not b and contains(
                    t[2], lambda x: x[0] == "attr" and x[2] == "all"):
                return True
        return False
    bad, line, n, unknown = None, None, 0, set()
    gone = 0
    for st, _ in list(outs.ret) + list(outs.exc):
        for ev in each.all_loops(st.events):
            if ev.args[0][0] == "comp" or not each.over(ev.args[0], varlocs):
                continue
            if each.over(ev.args[0], varlocs) == "part":
                bad, line = "only some variables are looked at", ev.line
            gone += 1
            for p in ev.args[2]:
                if p[0] == "raise":
                    continue
                if p[0] in ("break", "return"):
                    bad, line = "the search for bounds stops early", ev.line
                noted = set()
                for x in flat_events(p[1]):
                    key = x.args[1] if x.kind in ("setitem", "append") \
                        else None
                    if key and key[0] == "tuple" and len(key[1]) == 2 and \
                            is_const(key[1][1]) and is_var(key[1][0]):
                        noted.add(key[1][1][2])
                facts = dict(p[2])
                found = []
                for t, b in facts.items():
                    t, b = negated(t, b)
                    if b and t[0] in ("loopout", "call", "obj"):
                        tr = truths(t, p[1], st)
                        if tr is not None:
                            found.append((t, tr))
                        elif t[0] != "call":
                            unknown.add(t)
                for d, sign in (("upper", "+"), ("lower", "-")):
                    n += 1
                    if d in noted:
                        continue
                    ok, why = False, "nothing on the path bounds it"
                    for t, tr in found:
                        wrong = None
                        for c in tr:
                            if not outside(c):
                                wrong = "a monomial of an equality counts"
                            elif sign_of(c, is_exp) != sign:
                                wrong = "an exponent of sign %s counts" % \
                                    sign_of(c, is_exp)
                        if wrong is None:
                            ok = True
                        elif len(found) == 1:
                            why = wrong
                    if not ok and unknown and not found:
                        ok = True
                    if not ok:
                        line = ev.line
                        bad = "a missing %s bound is not noted: %s%s" % (
                            d, why, "" if why.startswith("a mono")
                            else each.why(facts))
    if not gone:
        raise AnalysisBroken("check_bounds does not go over the variables")
    chk.stats["missing_directions"] = n
    for t in unknown:
        chk.notes.append("undecided flag %s" % shown(t, 80))
    chk.ob("noted", f, "both directions of every variable", bad is None, bad,
           line=line)
    # it leaves normally only with nothing missing or when it must not raise
    bad = None
    for st, v in outs.ret:
        facts = {negated(t, b) for t, b in st.facts.items()}
        quiet = any(t == ("p", "err_on_missing_bounds") and not b
                    for t, b in facts)
        empty = any(t[0] in ("obj", "call", "cmp", "loopout") and
                    (not b if t[0] != "cmp" else True) and contains(
                        t, lambda x: x[0] == "obj") for t, b in facts)
        if not quiet and not empty:
            bad = "returns with bounds missing%s" % each.why(st.facts)
    chk.ob("refused", f, "normal exits", bad is None, bad)
    bad, n = None, 0
    for st, e in outs.exc:
        if e.cls != "gpkit.exceptions.UnboundedGP":
            continue
        n += 1
        if e.term and e.term[0] in ("new", "call") and all(
                x[0] == "bin" and x[1] == "%" and contains(
                    x, lambda y: y[0] == "call" and y[1] == ("b", "len"))
                and not contains(x, lambda y: y[0] == "obj" and y[1] != "dict")
                for x in e.term[2]):
            bad = "the error only counts the missing bounds"
        objs = each.feeding(st, e.term) if e.term else set()
        terms = [e.term] if e.term else []
        for o in objs:
            for ent in st.objs.get(o[2], ()):
                terms += list(ent[1:-1])
        said = set()
        for t in terms:
            for x in subterms(t):
                if x[0] in ("key", "sub", "elem"):
                    said.add(x)
        pairs = {x for x in said if x[0] == "sub" and x[2] in (K(0), K(1))}
        if not said:
            bad = "the error does not name the variables"
        elif pairs and {x[2] for x in pairs} != {K(0), K(1)}:
            bad = "the error leaves out the variable or the direction"
    chk.ob("refused", f, "UnboundedGP", n > 0 and bad is None,
           bad or "missing bounds are never refused")


# ----------------------------------------------------------- equalities ----
class Sets:
    "What the sets of a path hold: {(sign, direction)}."

    def __init__(self, st, events):
        self.st, self.filled = st, {}
        for ev in each.all_loops(events):
            for p in ev.args[2]:
                for x in p[1]:
                    if x.kind == "append" and x.args[0][0] == "obj":
                        self.note(x.args[0], x.args[1], dict(p[2]))
            if ev.args[0][0] == "comp":
                obj = ev.args[0][1]
                for p in ev.args[2]:
                    if p[0] == "next":
                        for e in st.objs.get(obj[2], ()):
                            if e[0] == "item":
                                self.note(obj, e[1], dict(p[2]))

    def note(self, obj, item, facts):
        cl = None
        if item[0] == "tuple" and len(item[1]) == 2 and is_const(item[1][1]):
            key = item[1][0]
            sign = sign_of(facts, lambda t: t[0] == "val" or t[0] == "sub" and
                           (t[2] == key or t[2] == K(1)))
            if sign:
                cl = (sign, item[1][1][2])
        self.filled.setdefault(obj[2], set()).add(cl)

    def eval(self, t):
        "(classes, excluded items) of a set-valued term, or None."
        t = strip(t)
        if t[0] == "obj":
            if t[2] in self.filled:
                return set(self.filled[t[2]]), []
            ents = self.st.objs.get(t[2], ())
            out, exc = set(), []
            for e in ents:
                if e[0] != "splat":
                    return None
                got = self.eval(e[1])
                if got is None:
                    return None
                out |= got[0]
                exc += got[1]
            return out, exc
        if t[0] == "call":
            if t[1] in (("b", "frozenset"), ("b", "set")):
                return self.eval(t[2][0]) if t[2] else (set(), [])
            if t[1][0] == "attr":
                base = self.eval(t[1][1])
                if base is None:
                    return None
                if t[1][2] in ("union",):
                    for a in t[2]:
                        got = self.eval(a)
                        if got is None:
                            return None
                        base = (base[0] | got[0], base[1] + got[1])
                    return base
                if t[1][2] == "difference" and len(t[2]) == 1:
                    return base[0], base[1] + [t[2][0]]
                if t[1][2] == "copy":
                    return base
            return None
        if t[0] == "bin" and t[1] == "|":
            a, b = self.eval(t[2]), self.eval(t[3])
            return None if a is None or b is None else \
                (a[0] | b[0], a[1] + b[1])
        if t[0] == "bin" and t[1] == "-":
            a = self.eval(t[2])
            return None if a is None else (a[0], a[1] + [t[3]])
        return None


def empty_in(t, b):
    "The collection that a fact says is empty."
    if t[0] == "cmp":
        for n, x in ((2, 3), (3, 2)):
            if t[x][0] == "call" and t[x][1] == ("b", "len"):
                size, k = t[x][2][0], t[n]
                if (t[1], n, k, b) in (("==", 2, K(0), True),
                                       ("==", 3, K(0), True),
                                       ("<", 2, K(0), False),
                                       ("<=", 2, K(1), False),
                                       ("<", 3, K(1), True),
                                       ("<=", 3, K(0), True)):
                    return size
        return None
    if t[0] == "call" and t[1] == ("b", "len"):
        return None if b else t[2][0]
    return None if b else t


def needs(sign, d):
    "What has to be bounded for a direction to follow from an equality."
    if d == "upper":
        return {(FLIP[sign], "upper"), (sign, "lower")}
    return {(sign, "upper"), (FLIP[sign], "lower")}


def paths_with(events, kinds, outer=()):
    for ev in events:
        if ev.kind != "loop" or ev.args[0][0] == "comp":
            continue
        for p in ev.args[2]:
            own = [x for x in p[1] if x.kind in kinds]
            if own:
                yield ev, p, own, outer + ((ev, p),)
            yield from paths_with(p[1], kinds, outer + ((ev, p),))


def equalities(chk):
    f, eng, outs = outcomes(chk, GP + "gen_meq_bounds")
    M = P("missingbounds")
    bad, line, n, un = None, None, 0, 0
    for st, v in outs.ret:
        sets = Sets(st, st.events)
        for ev, p, own, outer in paths_with(st.events, ("delitem", "call")):
            for x in own:
                if x.kind == "call":
                    if not (x.args[0][0] == "attr" and x.args[0][2] == "pop"
                            and x.args[0][1] == ("p", "missingbounds")):
                        continue
                    key = x.args[1][0] if x.args[1] else NONE
                else:
                    if x.args[0] != ("p", "missingbounds"):
                        continue
                    key = x.args[1]
                n += 1
                key = strip(key)
                if key[0] != "tuple" or not is_const(key[1][1]):
                    un += 1
                    continue
                d = key[1][1][2]
                # the sign of the variable, from where its key comes
                signs = set()
                for oev, op in outer:
                    it = oev.args[0]
                    got = sets.eval(it) if it[0] in ("obj", "call") else None
                    if got:
                        signs |= {c for c in got[0]}
                    s = sign_of(dict(op[2]), lambda t: t[0] == "val")
                    if s and not got:
                        signs.add((s, d))
                facts = {negated(t, b) for t, b in p[2]}
                needed = [e for e in (empty_in(t, b) for t, b in facts)
                          if e is not None and sets.eval(e) is not None]
                if not needed:
                    tested = any(contains(t, lambda x: x[0] == "obj" and
                                          x[2] in sets.filled)
                                 and not contains(t, lambda x: x ==
                                                  ("b", "len"))
                                 and empty_in(t, not b) is None
                                 for t, b in facts)
                    if tested:
                        un += 1
                        continue
                    bad, line = "a bound counts as found whatever the rest " \
                        "of the equality needs", x.line
                    continue
                if None in signs or len(signs) != 1:
                    un += 1
                    continue
                (sign, sd), = signs
                if sd != d:
                    bad, line = "a missing %s bound strikes out the %s one" % (
                        sd, d), x.line
                    continue
                got, exc = sets.eval(needed[0])
                if None in got:
                    un += 1
                    continue
                if not needs(sign, d) <= got:
                    bad, line = "the %s bound of a variable of sign %s is " \
                        "found without its needing %s" % (d, sign, sorted(
                            needs(sign, d) - got)), x.line
                for e in exc:
                    items = [e]
                    if e[0] == "obj":
                        items = [i[1] for i in st.objs.get(e[2], ())]
                    elif e[0] in ("tuple", "list"):
                        items = list(e[1])
                    for i in items:
                        i = strip(i)
                        if i[0] == "tuple" and i[1][0] == key[1][0] and \
                                i[1][1] == K(OTHER[d]):
                            continue
                        bad, line = "%s is not needed for a bound" % \
                            shown(i, 60), x.line
    if n == 0:
        raise AnalysisBroken("gen_meq_bounds discharges nothing")
    chk.stats["equality_discharges"] = n
    if un:
        chk.notes.append("%i discharges not decided" % un)
    chk.ob("equality-needs", f, "del missingbounds[...]", bad is None, bad,
           line=line)


def chains(chk):
    "A chain discharges a bound only when a whole condition is not missing."
    f, eng, outs = outcomes(chk, GP + "fulfill_meq_bounds")
    MB = ("p", "missingbounds")
    bad, line, n = None, None, 0
    seen = set()
    for st, v in list(outs.ret):
        for ev, p, own, outer in paths_with(st.events, ("delitem", "call")):
            for x in own:
                if x.kind == "call":
                    if not (x.args[0][0] == "attr" and x.args[0][2] in (
                            "pop", "clear", "popitem") and
                            x.args[0][1] == MB):
                        continue
                elif x.args[0] != MB:
                    continue
                n += 1
                ok = why = None
                for t, b in p[2]:
                    t, b = negated(t, b)
                    got = disjoint(t, b, st, p[1], MB)
                    if got:
                        ok = True
                    elif got is False:
                        why = shown(t, 80)
                if not ok and not why and any(
                        contains(t, lambda y: y == MB) and
                        not (t[0] == "in" and t[2] == MB) for t, b in p[2]):
                    chk.notes.append("a chain's test is not understood")
                    continue
                if not ok:
                    bad, line = "a bound counts as found although its " \
                        "condition may be missing (%s)" % (why or "no test"), \
                        x.line
    if n == 0:
        chk.notes.append("chains discharge nothing")
    chk.ob("chain-needs", f, "del missingbounds[...]", bad is None, bad,
           line=line)


def disjoint(t, b, st, events, MB):
    "Does a fact say that no element of a condition is missing?"
    if t[0] == "call" and t[1][0] == "b" and t[1][1] in ("any", "all") and \
            t[2] and t[2][0][0] == "obj":
        ents = st.objs.get(t[2][0][2], ())
        if not ents or not all(e[0] == "item" for e in ents):
            return None
        item, pol = negated(strip(ents[0][1]), True)
        if item[0] != "in" or item[2] != MB:
            return None
        comp = [ev for ev in each.all_loops(events)
                if ev.args[0] == ("comp", t[2][0])]
        if any(p[0] == "skip" for ev in comp for p in ev.args[2]):
            return False
        if t[1][1] == "any":
            return pol and not b
        return not pol and b
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
            "isdisjoint", "intersection"):
        if not contains(t, lambda y: y == MB):
            return None
        return b if t[1][2] == "isdisjoint" else not b
    if t[0] == "bin" and t[1] == "&" and contains(t, lambda y: y == MB):
        return not b
    if t[0] == "obj":
        comp = [ev for ev in each.all_loops(events)
                if ev.args[0] == ("comp", t)]
        if not comp or not any(y[0] == "in" and y[2] == MB for ev in comp
                               for p in ev.args[2] for y, _ in p[2]):
            return None
        left = [dict(p[2]) for ev in comp for p in ev.args[2]
                if p[0] == "skip"]
        return not b and all(any(y[0] == "in" and y[2] == MB and not c
                                 for y, c in fs.items()) for fs in left)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "issubset":
        return None
    return None


# ------------------------------------------------- equalities are marked ----
def tags(chk):
    f, eng, outs = outcomes(chk, "gpkit.nomials.math.MonomialEquality"
                            ".as_hmapslt1")
    covs = []
    for st, v in outs.ret:
        val = strip(v)

        def marks(ev):
            return ev.kind == "set" and ev.args[1] == "from_meq" and \
                ev.args[2] in (K(True), K(1)) or ev.kind == "call" and \
                ev.args[0] == ("b", "setattr") and \
                ev.args[1][1:] == (K("from_meq"), K(True))
        covs.append(each.Coverage(
            lambda t: t == val or t[0] == "call" and
            t[1][-1] == "as_hmapslt1", marks).run(st, st.events))
    bad, line = None, None
    for c in covs:
        if c.problems:
            line, bad = c.problems[0]
        elif not c.covering:
            bad = "its inequalities are not marked as halves of an equality"
    chk.ob("equality-marked", f, "from_meq", bad is None and bool(covs),
           bad or "no path", line=line)
    f, eng, outs = outcomes(chk, GP + "GeometricProgram.gen")
    bad, n = None, 0
    for st, v in outs.ret:
        for ev in [e for e in st.events if e.kind == "loop"]:
            for p in ev.args[2]:
                if p[0] == "raise":
                    continue
                tag = [b for t, b in map(lambda x: negated(*x), p[2])
                       if t[0] in ("getattr", "attr", "hasattr") and
                       "from_meq" in t]
                if not tag or not any(tag):
                    continue
                n += 1
                line = ev.line
                if not any(x.kind in ("call", "append") and contains(
                        x.args[0], lambda t: t[0] == "attr" and t[2] == "all")
                           or x.kind == "append" and x.args[0] in
                           [h for loc, h in st.heap.items()
                            if loc[1] == ".all"] for x in p[1]):
                    bad = "an equality is not noted"
    chk.ob("equality-marked", f, "meq_idxs.all", n > 0 and bad is None,
           bad or "marked inequalities are treated like any other")
