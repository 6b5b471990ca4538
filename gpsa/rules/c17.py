"""C17: dimensional analysis of symbolic terms.  A map of coefficients stands
for its coefficients times its units; on every path of the functions that add,
convert, compare, substitute, store or differentiate, the stored value times
the units it is stored under has to be the same product of magnitudes and
units as what it was made from (terms are compared as quotients of
polynomials, `A.to(B).magnitude` and the cached divisions being A/B, and an
absence of units being 1).  Package-wide, a magnitude that is stripped off a
quantity has to be of a converted quantity, or its units have to be read on
the same path; a map built from another map's coefficients and made into an
expression has to have been given units that mention every map it came from;
and values a user gives (substitutions, sweeps, linked functions, points of
approximation) are converted to the variable's units before they are stored
or before numpy gets to strip them."""
from ..flow import K, contains, flat_events, is_const, strip, subterms
from . import each
from .algebra import atom, equal, is_call_to, ratio, times
from .allrun import everything
from .c11 import paths
from .common import shown

TECHNIQUE = "dimensional analysis of symbolic terms on every path"
ASSUMPTIONS = ["pint's own conversions are right",
               "costs of one model's solutions all have its cost's units"]
SELF = ("p", "self")
MAP = "gpkit.nomials.map.NomialMap"
NOMIALS = tuple("gpkit.nomials.math." + n
                for n in ("Signomial", "Posynomial", "Monomial"))
ONE = K(1)


def run(chk):
    sums(chk)
    conversion(chk)
    products(chk)
    caches(chk)
    comparisons(chk)
    substituted(chk)
    cleaned(chk)
    stored(chk)
    array_sums(chk)
    array_products(chk)
    carried(chk)
    powers(chk)
    magnitudes(chk)
    given(chk)
    read(chk)
    equality(chk)
    restored(chk)


# --- units as terms

def dimless(t):
    return t == K("dimensionless") or t == K("") or \
        t[0] == "g" and t[1].endswith("DIMLESS_QUANTITY")


def units_of(facts, memo=None):
    "A substitution that brings conversions to quotients of units."
    same = {}
    for t, b in facts.items():
        if b and t[0] in ("cmp", "is") and (t[0] == "is" or t[1] == "=="):
            x, y = (t[1], t[2]) if t[0] == "is" else (t[2], t[3])
            if isunits(x) and isunits(y):
                same[strip(x)] = strip(y)

    def sub(t):
        if dimless(t):
            return ONE
        if isunits(t):
            if t in same and same[t] != t:
                return same[t]
            for u, b in facts.items():
                if not b and strip(u) == strip(t):
                    return ONE
                if b and u[0] == "is" and strip(u[1]) == strip(t) and \
                        u[2] == K(None):
                    return ONE
            o = t[1]       # a nomial's units are its map's
            if t[0] == "attr" and o[0] == "attr" and o[2] == "hmap":
                return ("attr", o[1], "units")
            if t[0] == "attr" and o[0] == "bin" and o[1] in ("*", "/"):
                return ("bin", o[1], ("attr", o[2], "units"),
                        ("attr", o[3], "units"))
            if t[0] == "attr" and is_call_to(o, "Quantity") and \
                    len(o[2]) == 2:
                return o[2][1]
            return None
        if t[0] == "attr" and t[2] in ("magnitude", "m"):
            x = t[1]
            if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "to" and \
                    len(x[2]) == 1:
                return ("bin", "/", x[1][1], x[2][0])
            return None
        if t[0] == "call" and t[1][0] == "attr" and \
                t[1][2] in ("m_as",) and len(t[2]) == 1:
            return ("bin", "/", t[1][1], t[2][0])
        if t[0] == "call" and t[1][0] == "attr" and \
                t[1][2] == "of_division" and len(t[2]) == 2:
            return ("bin", "/", ("attr", t[2][0], "units"),
                    ("attr", t[2][1], "units"))
        if is_call_to(t, "qty") and len(t[2]) == 1:
            return t[2][0]
        if is_call_to(t, "Quantity") and len(t[2]) == 2 and t[2][0] == ONE:
            return t[2][1]
        return None
    return sub


def isunits(t):
    return t[0] == "attr" and t[2] == "units" or \
        t[0] == "loopheap" and contains(t, lambda x: x == ".units") or \
        t[0] == "loopheap" and t[1][1:] == (".units",)


def per(a, b):
    return ("bin", "/", a, b)


def by(a, b):
    return ("bin", "*", a, b)


def walk(events, facts):
    "(event, facts on its path) of a state, loops gone into."
    for e in events:
        yield e, facts
        if e.kind == "loop":
            for p in e.args[2]:
                inner = dict(facts)
                inner.update(dict(p[2]))
                for x in walk(p[1], inner):
                    yield x


def set_units(st, t):
    "What a path sets the units of t to: (found, term)."
    got, term = False, None
    for e in flat_events(st.events):
        if e.kind == "set" and e.args[0] == t and e.args[1] == "units":
            got, term = True, e.args[2]
        elif e.kind == "call" and e.args[0] == ("attr", t, "units_of_product"):
            a = e.args[1] + tuple(v for _, v in e.args[2])
            got = True
            if len(a) == 1 or a[1] == K(None):
                term = a[0]
            else:
                term = by(a[0], a[1])
    return got, term


def func(chk, qual):
    return chk.prog.functions.get(qual)


def verdict(chk, rule, f, what, bad, n):
    if not n and not bad:
        chk.notes.append("undecided: %s of %s" % (what, f.qual))
        return
    line, why = bad[0] if bad else (None, None)
    chk.ob(rule, f, what, not bad, why, line)


# --- sums

def sums(chk):
    f = func(chk, MAP + ".__add__")
    if f is None:
        return
    other = ("p", [p for p in f.all_params() if p != "self"][0])
    bad, n = [], 0
    for st, v in paths(chk, f).ret:
        pair = None
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "__add__":
            pair = v[2] if len(v[2]) == 2 else \
                (SELF, v[2][0]) if v[1][1][0] == "super" else None
        elif v[0] == "bin" and v[1] == "+":
            pair = v[2:4]
        if pair is None:
            continue
        n += 1
        sub = units_of(st.facts)
        ok, u = set_units(st, v)
        if not ok:
            bad.append((f.node.lineno, "a sum is given no units%s" %
                        each.why(st.facts)))
            continue
        us, uo = ("attr", SELF, "units"), ("attr", other, "units")
        if not equal(by(pair[0], u), by(SELF, us), sub) or \
                not equal(by(pair[1], u), by(other, uo), sub):
            bad.append((f.node.lineno, "%s is added to %s under the units %s%s"
                        % (shown(pair[1], 90), shown(pair[0], 60),
                           shown(u, 30), each.why(st.facts))))
    verdict(chk, "sum-converts", f, "sum of maps", bad, n)


def conversion(chk):
    f = func(chk, MAP + ".to")
    if f is not None:
        to = ("p", [p for p in f.all_params() if p != "self"][0])
        bad, n = [], 0
        for st, v in paths(chk, f).ret:
            n += 1
            ok, u = set_units(st, v)
            if v == SELF:
                ok, u = True, ("attr", SELF, "units")
            if not ok or not contains(u, lambda t: t == to) and v != SELF:
                bad.append((f.node.lineno, "the result is not in the units"
                            " asked for"))
            elif not equal(by(v, u), by(SELF, ("attr", SELF, "units")),
                           units_of(st.facts)):
                bad.append((f.node.lineno, "%s under the units %s is not the"
                            " same quantity%s" % (shown(v, 90), shown(u, 30),
                                                  each.why(st.facts))))
        verdict(chk, "conversion", f, "conversion of a map", bad, n)
    f = func(chk, "gpkit.nomials.data.NomialData.to")
    if f is not None:
        to = ("p", [p for p in f.all_params() if p != "self"][0])
        bad, n = [], 0
        for st, v in paths(chk, f).ret:
            n += 1
            if not contains(v, lambda t: t[0] == "call" and t[1][0] == "attr"
                            and t[1][2] == "to" and to in t[2]):
                bad.append((f.node.lineno, "gives %s" % shown(v, 80)))
        verdict(chk, "conversion", f, "conversion of an expression", bad, n)


# --- products

def products(chk):
    f = func(chk, MAP + ".units_of_product")
    if f is None:
        return
    ps = [("p", p) for p in f.all_params() if p != "self"]
    one, two = ps[:2]
    bad, n = [], 0
    for st, _ in paths(chk, f).ret:
        has = {}
        for t, b in st.facts.items():
            if t[0] == "hasattr" and t[2] in ("units", K("units")):
                has[t[1]] = b
            if t[0] == "is" and t[2] == K(None) and b:
                has[t[1]] = False
            if t[0] == "isinstance" and b and contains(
                    t, lambda x: x[0] in ("g", "b") and
                    str(x[1]).rpartition(".")[2] in ("Strings", "str")):
                has.setdefault("str", t[1])
        ok, u = set_units(st, SELF)
        if not ok:
            bad.append((f.node.lineno, "a path leaves the units as they were%s"
                        % each.why(st.facts)))
            continue
        n += 1
        here = [p for p in (one, two) if has.get(p)]
        sub = units_of(st.facts)
        if len(here) == 2:
            prod = [t for t in subterms(u) if t[0] == "call" and
                    t[1][0] == "attr" and t[1][2] == "of_product"]
            if not prod:
                if not all(contains(u, lambda t, p=p: t == p) for p in here):
                    bad.append((f.node.lineno, "the product's units are %s" %
                                shown(u, 60)))
                continue
            if set(prod[0][2]) != set(ps[:2]):
                bad.append((f.node.lineno, "the product is of %s" %
                            shown(prod[0], 60)))
                continue
            if strip(u) != strip(("sub", prod[0], K(0))):
                bad.append((f.node.lineno, "the product's units are %s" %
                            shown(u, 60)))
                continue
            fac = ("sub", prod[0], K(1))
            falsy = any(strip(t) == strip(fac) and not b or t[0] == "is" and
                        strip(t[1]) == strip(fac) and t[2] == K(None) and b
                        for t, b in st.facts.items())
            if falsy:
                continue
            scaled = 0
            for ev in each.all_loops(st.events):
                if each.over_in(st, ev.args[0],
                                lambda t: t == SELF) != "whole":
                    continue
                scaled += 1
                for p in ev.args[2]:
                    if p[0] == "raise":
                        continue
                    sets = [e for e in p[1] if e.kind in ("setitem", "aug")
                            and contains(e.args[2], lambda t: strip(t) ==
                                         strip(fac))]
                    if not sets or any(e.kind == "setitem" and equal(
                            e.args[2], fac) for e in sets):
                        bad.append((ev.line, "an entry is not scaled by the"
                                    " conversion between the units"))
                    for e in sets:
                        if e.kind == "setitem":
                            m, d = ratio(e.args[2])
                            k = strip(fac)
                            if not linear(m, d, k):
                                bad.append((e.line, "an entry becomes %s" %
                                            shown(e.args[2], 70)))
            if not scaled:
                bad.append((f.node.lineno, "the conversion between the two"
                            " units is left out%s" % each.why(st.facts)))
        elif len(here) == 1:
            if not equal(u, ("attr", here[0], "units"), sub):
                bad.append((f.node.lineno, "the units become %s%s" %
                            (shown(u, 50), each.why(st.facts))))
        elif "str" in has:
            if not contains(u, lambda t: t == has["str"]):
                bad.append((f.node.lineno, "the units named are not used"))
        elif u != K(None) and not equal(u, ONE, sub):
            bad.append((f.node.lineno, "the units become %s%s" %
                        (shown(u, 50), each.why(st.facts))))
    verdict(chk, "product-units", f, "units of a product", bad, n)


def linear(num, den, a):
    "The quotient is proportional to the atom a."
    if len(num) < 1 or len(den) != 1:
        return False
    return all(dict(m).get(a) == 1 for m in num)


def caches(chk):
    for name, op in (("of_division", "/"), ("of_product", "*")):
        f = func(chk, "gpkit.units.GPkitUnits." + name)
        if f is None:
            continue
        ps = [("attr", ("p", p), "units")
              for p in f.all_params() if p != "self"]
        want = ("bin", op, ps[0], ps[1])
        bad, n = [], 0
        told = any(all(st.facts.get(p) for p in ps)
                   for st, _ in paths(chk, f).ret)

        def right(v, facts):
            if quotient(v, want, units_of(facts), op):
                return True
            # which of the units are there was asked, in some other way
            for p in ps if told else ():
                if p not in facts and not contains(
                        v, lambda t, p=p: t == p) and quotient(
                        v, want, units_of({**facts, p: False}), op):
                    return True
            return False
        for st, v in paths(chk, f).ret:
            if v[0] == "sub" or v[0] == "call" and v[1][0] == "attr" and \
                    v[1][2] == "get":
                continue       # from the cache: the stores are judged
            n += 1
            if not right(v, st.facts):
                bad.append((f.node.lineno, "gives %s%s" %
                            (shown(v, 80), each.why(st.facts))))
        for st, _ in paths(chk, f).ret:
            for e in flat_events(st.events):
                if e.kind != "setitem":
                    continue
                key = e.args[1]
                n += 1
                if not right(e.args[2], st.facts):
                    bad.append((e.line, "remembers %s" % shown(e.args[2], 80)))
                elif not all(contains(key, lambda t, p=p: t == p)
                             for p in ps):
                    bad.append((e.line, "remembered under %s" %
                                shown(key, 60)))
                elif op == "/" and key[0] == "tuple" and \
                        [strip(t) for t in key[1]] != \
                        [strip(t) for t in ps] and reads(st, e, key, ps):
                    bad.append((e.line, "remembered under %s" %
                                shown(key, 60)))
        verdict(chk, "unit-conversion", f, "conversion factor", bad, n)


def reads(st, e, key, ps):
    "The cache is read under another key than it is written under."
    for r in flat_events(st.events):
        if r.kind == "getitem" and r.args[0] == e.args[0] and \
                r.args[1] != key:
            return True
    return False


def quotient(v, want, sub, op):
    if op == "/":
        return equal(v, want, sub)
    if v[0] != "tuple" or len(v[1]) != 2:
        return True
    a, b = v[1]
    if a == K(None):
        return equal(b, want, sub)
    return b == K(None) and equal(a, want, sub)


# --- comparisons

def comparisons(chk):
    f = func(chk, "gpkit.nomials.math.PosynomialInequality._gen_unsubbed")
    if f is None:
        return
    lt, gt = [("p", p) for p in f.all_params() if p != "self"][:2]
    ul, ug = ("attr", lt, "units"), ("attr", gt, "units")
    bad, n = [], 0
    for r in everything(chk):
        if r.func is not f:
            continue
        for st, v in r.ret:
            vals = []
            for e, facts in walk(st.events, st.facts):
                if e.kind == "setitem":
                    vals.append((e.line, e.args[2], facts))
            for ents in st.objs.values():
                vals.extend((f.node.lineno, x[2], st.facts) for x in ents
                            if x[0] == "kv")
            for e, facts in walk(st.events, st.facts):
                if e.kind in ("bin", "aug"):
                    t = e.args[0] if e.kind == "bin" else \
                        ("bin", e.args[1], e.args[0], e.args[2])
                    if contains(t, lambda x: x == ("attr", lt, "hmap")) and \
                            not contains(t, lambda x: x[0] == "attr" and
                                         x[2] == "keys"):
                        vals.append((e.line, t, facts))
            final = []
            for line, t, facts in vals:
                if not fromitems(t, lt) or not contains(
                        t, lambda x: x[0] in ("only", "attr") and
                        contains(x, lambda y: y == gt)):
                    continue
                if iskey(t):
                    continue
                final.append((line, t, facts))
            for line, t, facts in final:
                sub = units_of(facts)
                try:
                    num, den = ratio(t, sub)
                    want = ratio(per(ul, ug), sub)
                except (OverflowError, ZeroDivisionError):
                    continue
                n += 1
                if not has_units(num, den, want, ul, ug):
                    bad.append((line, "the sides are compared as %s"
                                % shown(t, 110)))
    verdict(chk, "compare-converts", f, "sides of an inequality", bad, n)


def fromitems(t, side):
    return contains(t, lambda x: x[0] in ("val", "elem", "only", "sub") and
                    contains(x, lambda y: y == ("attr", side, "hmap"))) or \
        contains(t, lambda x: x == ("attr", side, "hmap"))


def iskey(t):
    "An exponent, rather than a coefficient."
    return t[0] == "bin" and t[1] in ("-", "+")


def has_units(num, den, want, *units):
    "The units occur in num/den just as they do in want."
    def degree(p, a):
        return {dict(m).get(a, 0) for m in p}
    for u in units:
        got = {x - y for x in degree(num, u) for y in degree(den, u)}
        exp = {x - y for x in degree(want[0], u) for y in degree(want[1], u)}
        if got != exp:
            return False
    return True


# --- values put in place of variables

def plain(value, facts):
    "The facts say that the value is a number without units."
    for t, b in facts.items():
        if t[0] in ("hasattr", "isinstance") and strip(t[1]) == strip(value):
            if t[0] == "hasattr" and not b and \
                    t[2] in ("units", "to", "magnitude", K("units"), K("to"),
                             K("magnitude")):
                return True
            if t[0] == "isinstance":
                names = {x[1].rpartition(".")[2] for x in subterms(t[2])
                         if x[0] in ("g", "b")}
                if not b and names & {"Quantity", "Numbers"}:
                    return True
                if b and names and names <= {"float", "int"}:
                    return True
    return False


def nomial(value, facts):
    "Known (not) to be an expression: True, False or None."
    for t, b in facts.items():
        if strip(t[1] if len(t) > 1 and isinstance(t[1], tuple) else t) \
                != strip(value):
            continue
        if t[0] == "hasattr" and t[2] in ("hmap", K("hmap")):
            return b
        if t[0] == "isinstance" and contains(
                t[2], lambda x: x[0] == "g" and
                x[1].endswith((".FixedScalar", ".Monomial", ".Nomial",
                               ".Signomial"))):
            return b
    return None


def conv(v, key, value, facts):
    """v is `value` in the units of `key`: True, False, or None if that
    cannot be told."""
    if is_call_to(v, "clean_value"):
        return len(v[2]) == 2 and strip(v[2][0]) == strip(key)
    if is_call_to(v, "float") and len(v[2]) == 1:
        return conv(v[2][0], key, value, facts)
    ku = ("attr", key, "units")
    # the one coefficient of a converted map
    if v[0] in ("only", "sub") or is_call_to(v, "next"):
        to = [t for t in subterms(v) if t[0] == "call" and
              t[1][0] == "attr" and t[1][2] == "to"]
        if to:
            return all(equal(t[2][0], ku, units_of(facts)) for t in to)
        if contains(v, lambda t: t == ("attr", value, "hmap")):
            return False
    for src in (value, ("attr", value, "value")):
        if v == src:
            if src == value and nomial(value, facts):
                return False
            return plain(src, facts)
        if equal(v, per(src, ku), units_of(facts)):
            return True
    if contains(v, lambda t: t == value):
        return False
    return None


def substituted(chk):
    f = func(chk, MAP + ".sub")
    if f is None:
        return
    bad, n = [], 0
    for r in everything(chk):
        if r.func is not f:
            continue
        for st, _ in r.ret:
            for e, facts in walk(st.events, st.facts):
                if e.kind != "call" or not is_call_to(
                        ("call",) + tuple(e.args[:3]), "subinplace"):
                    continue
                g = func(chk, "gpkit.nomials.map.subinplace")
                names = g.all_params() if g else []
                a = dict(zip(names, e.args[1]))
                a.update(dict(e.args[2]))
                if "vk" not in a or "cval" not in a:
                    continue
                vk, v = a["vk"], a["cval"]
                value = original(v, vk)
                if value is None:
                    continue
                ok = conv(v, vk, value, facts)
                if ok is None:
                    continue
                n += 1
                if not ok:
                    bad.append((e.line, "%s is put in place of a variable%s" %
                                (shown(v, 80), each.why(facts))))
    verdict(chk, "substituted-converts", f, "value put in place of a variable",
            bad, n)


def original(v, vk):
    "The entry of a mapping under the key vk that v was made from."
    for t in subterms(v):
        if t[0] == "sub" and strip(t[2]) == strip(vk):
            return t
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and \
                t[2] and strip(t[2][0]) == strip(vk):
            return t
        if t[0] == "val":
            return t
    return None


def cleaned(chk):
    f = func(chk, "gpkit.keydict.clean_value")
    if f is None:
        return
    key, value = [("p", p) for p in f.all_params()][:2]
    bad, n = [], 0
    for st, v in paths(chk, f).ret:
        n += 1
        if conv(v, key, value, st.facts) is False:
            bad.append((f.node.lineno, "gives %s%s" % (shown(v, 80),
                                                       each.why(st.facts))))
    verdict(chk, "stored-converts", f, "value in a key's units", bad, n)
    f = func(chk, "gpkit.constraints.gp.GeometricProgram.__init__")
    if f is None:
        return
    bad, n = [], 0
    for r in everything(chk):
        if r.func is not f:
            continue
        for st in r.states:
            for e, facts in walk(st.events, st.facts):
                if e.kind != "setitem" or e.args[1][0] != "key":
                    continue
                v, key = e.args[2], e.args[1]
                src = [t for t in subterms(v) if t[0] == "val"]
                if not src:
                    continue
                ok = conv(v, key, src[0], facts)
                if ok is None:
                    continue
                n += 1
                if not ok:
                    bad.append((e.line, "%s is substituted%s" %
                                (shown(v, 80), each.why(facts))))
    verdict(chk, "stored-converts", f, "constants of a program", bad, n)


def stored(chk):
    f = func(chk, "gpkit.keydict.KeyDict.__setitem__")
    if f is None:
        return
    key, value = [("p", p) for p in f.all_params() if p != "self"][:2]
    clean = lambda t: is_call_to(t, "clean_value")

    def raw(t):
        "The value without having gone through clean_value."
        if clean(t):
            return False
        if t == value:
            return True
        if t[0] in ("isinstance", "hasattr"):
            return False
        return any(raw(x) for x in t[1:] if isinstance(x, tuple) and x and
                   isinstance(x[0], str)) or any(
                       raw(y) for x in t[1:] if isinstance(x, tuple) and x
                       and isinstance(x[0], tuple) for y in x
                       if isinstance(y, tuple) and y and
                       isinstance(y[0], str))
    bad, n = [], 0
    for r in everything(chk):
        if r.func is not f:
            continue
        for st in r.states:
            for e, facts in walk(st.events, st.facts):
                v = None
                if e.kind == "setitem" and e.args[0] != SELF and contains(
                        e.args[0], lambda t: t == SELF):
                    v = e.args[2]
                elif e.kind == "call" and e.args[0][0] == "attr" and \
                        e.args[0][2] == "__setitem__":
                    v = e.args[1][-1] if e.args[1] else None
                if v is None:
                    continue
                n += 1
                if raw(v):
                    bad.append((e.line, "%s is stored%s" %
                                (shown(v, 70), each.why(facts))))
                    continue
                for o in [t for t in subterms(v) if t[0] == "obj"]:
                    for x in st.objs.get(o[2], ()):
                        if x[0] == "item" and x[1][0] == "elem" and not \
                                contains(x[1], lambda t: t[0] == "sub"):
                            bad.append((e.line, "%s is stored for each element"
                                        % shown(x[1], 60)))
                if is_call_to(v, "array") and v[2] and clean(v[2][0]) and \
                        any(t[0] == "hasattr" and b and t[2] in
                            ("__len__", K("__len__")) and
                            strip(t[1]) == strip(v[2][0])
                            for t, b in facts.items()):
                    bad.append((e.line, "a sequence's elements are stored"
                                " without being converted"))
                for c in [t for t in subterms(v) if clean(t)]:
                    if c[2] and contains(c[2][-1], clean):
                        continue
                    if not c[2] or not keyish(c[2][0], key):
                        bad.append((e.line, "the value is converted for %s" %
                                    shown(c[2][0] if c[2] else c, 60)))
            # numpy strips the units of what it is filled with
            for e, facts in walk(st.events, st.facts):
                if e.kind == "call" and is_call_to(
                        ("call",) + tuple(e.args[:3]), "full", "full_like") \
                        and len(e.args[1]) > 1:
                    x = e.args[1][1]
                    if raw(x) and not plain(x, facts):
                        bad.append((e.line, "numpy strips the units of %s%s" %
                                    (shown(x, 50), each.why(facts))))
    verdict(chk, "stored-converts", f, "value stored under a variable", bad, n)


def keyish(t, key):
    return contains(t, lambda x: x == key) or contains(
        t, lambda x: x[0] == "call" and x[1][0] == "attr" and
        x[1][2] == "parse_and_index")


# --- sums and products of arrays

def array_sums(chk):
    f = func(chk, "gpkit.nomials.array.NomialArray.sum")
    if f is None:
        return
    bad, n, numbers = [], 0, []
    for r in everything(chk):
        if r.func is not f:
            continue
        for st, _ in r.ret:
            for ev in each.all_loops(st.events):
                if each.over(ev.args[0],
                             lambda t: strip(t) in (SELF, ("attr", SELF,
                                                           "flat"))) is None:
                    continue
                for p in ev.args[2]:
                    facts = dict(p[2])
                    for e in p[1]:
                        if e.kind != "setitem":
                            continue
                        el = [t for t in subterms(e.args[2])
                              if t[0] == "elem"]
                        if not el:
                            continue
                        n += 1
                        one_summand(e, facts, el[0], bad, numbers)
                    for e in p[1]:
                        if e.kind in ("aug", "bin"):
                            a = e.args[0] if e.kind == "bin" else \
                                ("bin", e.args[1], e.args[0], e.args[2])
                            if contains(a, lambda t: t[0] == "attr" and
                                        t[2] == "hmap"):
                                n += 1
                                if a[1] not in "+":
                                    bad.append((e.line, "summands are combined"
                                                " as %s" % shown(a, 60)))
    if numbers and not any(numbers):
        bad.append((f.node.lineno, "plain numbers are never converted to the"
                    " units of the sum"))
    verdict(chk, "array-units", f, "sum of an array", bad, n)


def one_summand(e, facts, el, bad, numbers):
    v = e.args[2]
    unit = None
    for t, b in facts.items():
        if t[0] == "hasattr" and strip(t[1]) == strip(el) and \
                t[2] in ("units", K("units")):
            unit = b
    nom = nomial(el, facts)
    parts = summands(v)
    mine = [x for x in parts if contains(x, lambda t: t == el)]
    if not mine:
        return
    x = mine[0]
    if nom and not contains(x, lambda t: t[0] == "attr" and
                            t[2] in ("to", "of_division")):
        bad.append((e.line, "an expression's coefficients are added as %s" %
                    shown(x, 60)))
    elif unit:
        if x == el or contains(x, lambda t: t[0] == "attr" and t[2] in
                               ("magnitude", "m") and not conversions(t[1])):
            bad.append((e.line, "a quantity is added as %s" % shown(x, 60)))
    elif nom is False or unit is False:
        divided = contains(x, isunits)
        numbers.append(divided)
        if divided:
            num, den = ratio(x, units_of({}))
            if any(isunits(a) for m in num for a, k in m if k > 0):
                bad.append((e.line, "a number is added as %s" % shown(x, 60)))
        else:
            on = [b for t, b in facts.items() if isunits(t)]
            raised = any(b is False and strip(t) == strip(el) or
                         b and contains(t, lambda y: y[0] in ("g", "attr") and
                                        str(y[-1]).endswith("isnan"))
                         for t, b in facts.items())
            if True in on and not raised:
                bad.append((e.line, "a number is added as it is to a sum with"
                            " units%s" % each.why(facts)))


def conversions(t):
    return t[0] == "call" and t[1][0] == "attr" and \
        t[1][2] in ("to", "to_base_units", "ito", "to_reduced_units")


def summands(t):
    if t[0] == "bin" and t[1] == "+":
        return summands(t[2]) + summands(t[3])
    return [t]


def array_products(chk):
    f = func(chk, "gpkit.nomials.array.NomialArray.prod")
    if f is None:
        return
    bad, n = [], 0
    for r in everything(chk):
        if r.func is not f:
            continue
        for st, _ in r.ret:
            for ev in each.all_loops(st.events):
                if ev.args[0][0] in ("comp",):
                    continue
                for p in ev.args[2]:
                    if p[0] != "next":
                        continue
                    facts = dict(p[2])
                    el = None
                    for e in p[1]:
                        for t in e.args:
                            if isinstance(t, tuple) and t and \
                                    isinstance(t[0], str):
                                for x in subterms(t):
                                    if x[0] == "elem" and el is None:
                                        el = x
                    if el is None:
                        continue
                    n += 1
                    if any(not b and t[0] == "attr" and t[2] == "units" and
                           contains(t, lambda x, el=el: x == el)
                           for t, b in facts.items()):
                        continue
                    us = [e.args[2] for e in p[1] if e.kind == "set" and
                          e.args[1] == "units"]
                    other = [e for e in p[1] if e.kind in ("aug", "bin",
                                                           "call") and
                             any(isinstance(t, tuple) and contains(
                                 t, lambda x: x[0] == "attr" and
                                 x[2] == "units")
                                 for t in deep(e.args))]
                    if not us and other:
                        continue
                    if not us:
                        bad.append((ev.line, "a factor's units are left out%s"
                                    % each.why(facts)))
                        continue
                    u = us[-1]
                    first = any(isunits(t) and not b and t[0] == "loopheap"
                                for t, b in facts.items())
                    if not contains(u, lambda x: x[0] == "attr" and
                                    x[2] == "units" and
                                    contains(x, lambda y: y == el)):
                        bad.append((ev.line, "a factor's units are left out"))
                    elif not first and not contains(
                            u, lambda x: x[0] in ("loopheap", "loopvar")
                            and isunits(x) or x[0] == "phi"):
                        bad.append((ev.line, "the units of the factors before"
                                    " are dropped"))
                    elif u[0] == "bin" and u[1] != "*":
                        bad.append((ev.line, "the units become %s" %
                                    shown(u, 60)))
    verdict(chk, "array-units", f, "product of an array", bad, n)


def deep(args):
    for t in args:
        if isinstance(t, tuple) and t:
            if isinstance(t[0], str):
                yield t
            else:
                for x in deep(t):
                    yield x


# --- maps made of other maps' coefficients

def sources_of(t):
    """What maps (or quantities stripped of their units) a coefficient was
    taken from, as the objects that have their units."""
    out = {("p", x[1]) for x in subterms(t) if x[0] == "p" and
           x[1] == "hmap" and any(
               y[0] in ("val", "only") and contains(y, lambda z: z == x) or
               y[0] in ("bin", "sub", "call") and x in operands(y)
               for y in subterms(t))}
    for x in subterms(t):
        if x[0] in ("val", "only", "sub") or x[0] == "call" and \
                x[1][0] == "attr" and x[1][2] in ("values", "items"):
            for y in subterms(x):
                if y[0] == "attr" and y[2] == "hmap":
                    out.add(y[1])
        if is_call_to(x, "mag") and len(x[2]) == 1:
            out.add(x[2][0])
        if x[0] == "attr" and x[2] == "hmap":
            out.add(x[1])
    return out


def operands(t):
    if t[0] == "sub":
        return (t[1],)
    if t[0] == "call":
        return (t[1][1],) if t[1][0] == "attr" and t[1][2] == "copy" else ()
    return t[2:4] if t[1] in ("*", "/") else ()


def carried(chk):
    judged = ("gpkit.nomials.math.PosynomialInequality._gen_unsubbed",
              "gpkit.nomials.array.NomialArray.sum",
              "gpkit.nomials.array.NomialArray.prod",
              # both sides of one inequality, of which only quotients are used
              "gpkit.nomials.math.SignomialInequality.as_hmapslt1")
    for r in everything(chk):
        f = r.func
        if f.qual in judged or not f.module.name.startswith("gpkit."):
            continue
        bad, n = [], 0
        for st, v in r.ret or [(s, None) for s in r.states]:
            for t, line in made(st, v):
                coeffs = entries(st, t)
                need = set()
                for c in coeffs:
                    need |= sources_of(c)
                if f.qual.startswith(MAP + ".") and coeffs and any(
                        contains(c, lambda x: x == SELF) for c in coeffs):
                    need.add(SELF)
                if not need:
                    continue
                n += 1
                got, u = set_units(st, t)
                if not got:
                    if not stripped(need, st.facts):
                        bad.append((line, "an expression is made of %s's"
                                    " coefficients without units" %
                                    shown(sorted(need, key=repr)[0], 40)))
                    continue
                for s in need:
                    if unitless(s, st.facts):
                        continue
                    if u == K(None) and f.name == "__pow__":
                        continue       # see powers()
                    if not about(u, s):
                        bad.append((line, "the units of %s are left out of an"
                                    " expression made with its coefficients%s"
                                    % (shown(s, 40), each.why(st.facts))))
            late(st, bad)
        if n:
            line, why = bad[0] if bad else (None, None)
            chk.ob("units-carried", f, "units of a map made of others",
                   not bad, why, line)


def about(u, s):
    if contains(u, lambda t: t == s):
        return True
    return False


def unitless(s, facts):
    if plain(s, facts) and any(
            t[0] == "hasattr" and strip(t[1]) == strip(s) and not b or
            t[0] == "isinstance" and not b and strip(t[1]) == strip(s) and
            contains(t[2], lambda x: x[0] == "g" and
                     x[1].endswith(".Quantity"))
            for t, b in facts.items()):
        return True
    for t, b in facts.items():
        if not b and t[0] == "attr" and t[2] == "units" and \
                contains(t, lambda x: x == s):
            return True
    return False


def stripped(need, facts):
    return all(unitless(s, facts) for s in need)


def made(st, v):
    "Maps that are made into expressions or returned: (term, line)."
    out = []
    for e in flat_events(st.events):
        if e.kind == "new" and e.args[0][1] == MAP:
            out.append((e.args[0], e.line))
        if e.kind != "new" or e.args[0][1] not in NOMIALS:
            continue
        args = e.args[0][2]
        if args and ismap(args[0], st):
            out.append((args[0], e.line))
        for t in args[:1]:       # one of several
            if t[0] in ("elem", "val"):
                for o in [x for x in subterms(t) if x[0] == "obj"]:
                    for ent in st.objs.get(o[2], ()):
                        if ent[0] == "item" and ismap(ent[1], st):
                            out.append((ent[1], e.line))
    if v is not None and ismap(v, st):
        out.append((v, None))
    seen, uniq = set(), []
    for t, line in out:
        if t not in seen:
            seen.add(t)
            uniq.append((t, line))
    return uniq


def ismap(t, st):
    if t[0] == "new":
        return t[1] == MAP
    if t[0] == "bin" and t[1] in ("*", "/", "+", "-"):
        return any(x[0] == "attr" and x[2] == "hmap" or x == ("p", "hmap") or
                   ismap(x, st) for x in t[2:4]) and t[1] in ("*", "/")
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "copy":
        return t[1][1][0] == "attr" and t[1][1][2] == "hmap"
    return False


def entries(st, t):
    "Coefficients that are put in the map."
    out = []
    if t[0] == "bin" and t[1] in ("*", "/"):
        return [t]
    if t[0] == "call":
        return [t]
    for e in flat_events(st.events):
        if e.kind == "setitem" and e.args[0] == t:
            out.append(e.args[2])
    if t[0] == "new":
        for a in t[2]:
            for o in [x for x in subterms(a) if x[0] == "obj"]:
                for ent in st.objs.get(o[2], ()):
                    if ent[0] == "kv":
                        out.append(ent[2])
                    elif ent[0] == "item" and ent[1][0] == "tuple" and \
                            len(ent[1][1]) == 2:
                        out.append(ent[1][1][1])
    return out


def late(st, bad):
    "A conversion of the entries comes before some of the entries."
    conv_ = {}
    for e in flat_events(st.events):
        if e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] == "units_of_product":
            a = e.args[1]
            if len(a) == 2 and K(None) not in a:
                conv_[e.args[0][1]] = e.line
        elif e.kind == "setitem" and e.args[0] in conv_ and \
                e.args[0][0] == "new":
            bad.append((e.line, "an entry is added after the conversion"
                        " between the units"))


def powers(chk):
    f = func(chk, "gpkit.nomials.math.Monomial.__pow__")
    if f is None:
        return
    expo = ("p", [p for p in f.all_params() if p != "self"][0])
    bad, n = [], 0
    for st, v in paths(chk, f).ret:
        maps = [t for t, _ in made(st, v)]
        for t in maps:
            n += 1
            got, u = set_units(st, t)
            off = any(not b and (x == expo or isunits(x))
                      for x, b in st.facts.items()) or any(
                          b and x[0] == "cmp" and x[1] == "==" and
                          expo in x[2:4] and K(0) in x[2:4]
                          for x, b in st.facts.items())
            if not got or u == K(None):
                if not off:
                    bad.append((f.node.lineno, "a power of a monomial with"
                                " units has none%s" % each.why(st.facts)))
            elif not (u[0] == "bin" and u[1] == "**" and isunits(u[2]) and
                      u[3] == expo):
                if off and not contains(u, isunits):
                    continue
                bad.append((f.node.lineno, "a power's units are %s" %
                            shown(u, 60)))
    verdict(chk, "power-units", f, "units of a power", bad, n)


# --- magnitudes on their own

def bare(t):
    "(quantity) whose magnitude the term takes, or None."
    if t[0] == "attr" and t[2] in ("magnitude", "m") and t[1] != SELF:
        return t[1]
    if t[0] == "getattr" and len(t) > 2 and \
            t[2] in ("magnitude", K("magnitude")):
        return t[1]
    if is_call_to(t, "getattr") and len(t[2]) > 1 and \
            t[2][1] == K("magnitude"):
        return t[2][0]
    if is_call_to(t, "mag") and len(t[2]) == 1:
        return t[2][0]
    return None


def magnitudes(chk):
    for r in everything(chk):
        f = r.func
        if f.qual == "gpkit.small_scripts.mag" or \
                f.qual.startswith("gpkit.interactive"):
            continue
        bad, n = [], 0
        values = {}
        for st, v in r.ret:
            values.setdefault(id(st), []).append(v)
        for st in r.states:
            units_read = None
            uses = [(e.line, e.kind, e.args, facts)
                    for e, facts in walk(st.events, st.facts)]
            uses += [(f.node.lineno, "return", (v,), st.facts)
                     for v in values.get(id(st), ())]
            for line, kind, args, facts in uses:
                # intermediate results are judged by what they are used for
                if kind in ("loop", "compare", "bin", "aug", "getitem"):
                    continue
                for top in deep(args):
                    for t in subterms(top):
                        x = bare(t)
                        if x is None:
                            continue
                        n += 1
                        if conversions(x) or plain(x, facts):
                            continue
                        if x[0] == "sub" and x[2] == K("cost"):
                            continue
                        if display(f) or displayed(top, t):
                            continue
                        if units_read is None:
                            units_read = accounted(st)
                        if loose(x) in units_read:
                            continue
                        bad.append((line, "the magnitude of %s is used on"
                                    " its own" % shown(x, 60)))
        if n:
            line, why = bad[0] if bad else (None, None)
            chk.ob("bare-magnitude", f, "magnitudes", not bad, why, line)


def display(f):
    "Functions that only make text."
    return f.qual.startswith("gpkit.repr_conventions.") or \
        f.qual.startswith("gpkit.solution_array.")


def displayed(top, t):
    "The magnitude only goes into text."
    def uses(x, inside):
        if x == t:
            return not inside
        here = inside or x[0] == "fmt" or x[0] == "bin" and x[1] == "%" or \
            x[0] == "call" and x[1][0] == "attr" and x[1][2] == "format"
        for y in deep(x[1:]):
            if uses(y, here):
                return True
        return False
    return contains(top, lambda x: x[0] in ("fmt",) or x[0] == "bin" and
                    x[1] == "%") and not uses(top, False)


def accounted(st):
    "Things whose units are read, or restored, on the path."
    out = set()
    for e, _ in walk(st.events, {}):
        if e.kind in ("loop", "compare"):
            continue
        if e.kind == "call" and e.args[0][0] in ("attr", "g"):
            name = e.args[0][-1].rpartition(".")[2]
            if name in ("units_of_product", "qty", "unitstr", "Quantity",
                        "of_product", "of_division"):
                out.update(loose(a) for a in e.args[1])
        for top in deep(e.args):
            for t in subterms(top):
                if t[0] == "attr" and t[2] == "units":
                    out.add(loose(t[1]))
                elif t[0] in ("getattr", "default") or is_call_to(t,
                                                                  "getattr"):
                    a = t[2] if t[0] == "call" else t[1:]
                    if len(a) > 1 and a[1] in ("units", K("units")):
                        out.add(loose(a[0]))
    return out


def loose(t):
    "Elements of a thing have its units."
    t = strip(t)
    while t[0] in ("elem", "val") or t[0] == "sub" and t[2][0] == "slice":
        t = t[1]
    return t


def uncleaned(t, hit):
    "The term has such a part outside of clean_value."
    if is_call_to(t, "clean_value"):
        return False
    return hit(t) or any(uncleaned(x, hit) for x in deep(t[1:]))


# --- values that users give

def given(chk):
    clean = lambda t: is_call_to(t, "clean_value")

    # swept values
    f = func(chk, "gpkit.nomials.substitution.append_sub")
    if f is not None:
        bad, n = [], 0
        for r in everything(chk):
            if r.func is not f:
                continue
            for st in r.states:
                for e, facts in walk(st.events, st.facts):
                    if e.kind == "setitem" and e.args[0] == ("p", "sweep"):
                        n += 1
                        v = e.args[2]
                        if not contains(v, clean) and not plain(v, facts):
                            bad.append((e.line, "swept values are stored as %s"
                                        % shown(v, 60)))
        verdict(chk, "given-converts", f, "swept values", bad, n)
    # what linked functions return
    f = func(chk, "gpkit.constraints.prog_factories.evaluate_linked")
    if f is not None:
        bad, n = [], 0
        for r in everything(chk):
            if r.func is not f:
                continue
            for st in r.states:
                for e, facts in walk(st.events, st.facts):
                    if e.kind == "setitem" and e.args[0][0] == "p":
                        v = e.args[2]
                        if v[0] != "attr" or v[2] != "x":
                            continue
                        n += 1
                        if not contains(v, clean):
                            bad.append((e.line, "a linked value is stored as"
                                        " %s" % shown(v, 60)))
        verdict(chk, "given-converts", f, "linked values", bad, n)
    # what numpy would strip of its units
    strips = ("array", "asarray", "full", "full_like", "fromiter",
              "asanyarray")
    for q, isuser in (
            ("gpkit.constraints.prog_factories.evaluate_linked",
             lambda t: t[0] == "call" and t[1][0] in ("attr", "val", "sub",
                                                      "p") and
             contains(t[1], lambda x: x[0] == "attr" and
                      x[2] == "original_fn" or x == ("p", "linked"))),
            ("gpkit.nomials.variables.veclinkedfn.<locals>.newlinkedfn",
             lambda t: t[0] == "call" and strip(t[1]) ==
             ("p", "linkedfn"))):
        f = func(chk, q)
        if f is None:
            continue
        bad, n = [], 0
        for r in everything(chk):
            if r.func is not f:
                continue
            n += 1
            for st in r.states:
                for e, facts in walk(st.events, st.facts):
                    if e.kind == "call" and e.args[1] and e.args[0][0] == "g" \
                            and e.args[0][1].startswith("numpy.") and \
                            e.args[0][1].rpartition(".")[2] in strips and \
                            any(isuser(a) for a in e.args[1]):
                        bad.append((e.line, "numpy strips the units of a"
                                    " linked function's result"))
        if n:
            line, why = bad[0] if bad else (None, None)
            chk.ob("given-converts", f, "result of a linked function", not bad,
                   why, line)
    # vectorized values
    f = func(chk, "gpkit.nomials.variables.ArrayVariable.__new__")
    if f is not None:
        bad, n = [], 0
        for r in everything(chk):
            if r.func is not f:
                continue
            for st in r.states:
                for e, facts in walk(st.events, st.facts):
                    if e.kind == "call" and e.args[0][0] == "g" and \
                            e.args[0][1] == "numpy.full" and \
                            len(e.args[1]) > 1:
                        n += 1
                        x = e.args[1][1]
                        if not plain(x, facts) and not is_const(x) and \
                                not contains(x, clean) and bare(x) is None:
                            bad.append((e.line, "numpy strips the units of %s"
                                        % shown(x, 50)))
        if n:
            verdict(chk, "given-converts", f, "value of a vectorized variable",
                    bad, n)
    # points of approximation
    f = func(chk, "gpkit.nomials.math.Signomial.mono_approximation")
    if f is not None:
        bad, n = [], 0
        for st, _ in paths(chk, f).ret:
            for e, facts in walk(st.events, st.facts):
                for t in deep(e.args):
                    if e.kind != "bin" or t[0] != "bin" or t[1] != "**":
                        continue
                    n += 1
                    base = t[2]
                    if contains(base, clean):
                        continue
                    objs = [x for x in subterms(base) if x[0] == "obj"]
                    ok = any(contains(ent[2], clean) for o in objs
                             for ent in st.objs.get(o[2], ())
                             if ent[0] == "kv")
                    if objs and ok or plain(base, facts):
                        continue
                    if contains(base, lambda x: x[0] == "p" and
                                x[1] == "x0" or x[0] == "call" and
                                contains(x, lambda y: y == ("p", "x0"))):
                        bad.append((e.line, "the value %s is used as it was"
                                    " given" % shown(base, 60)))
        verdict(chk, "given-converts", f, "point of an approximation", bad, n)
    # ends of automatic sweeps
    f = func(chk, "gpkit.constraints.model.Model.autosweep")
    if f is not None:
        bad, n = [], 0
        for r in everything(chk):
            if r.func is not f:
                continue
            for st in r.states:
                for e, facts in walk(st.events, st.facts):
                    if e.kind != "call" or not is_call_to(
                            ("call",) + tuple(e.args[:3]), "autosweep_1d"):
                        continue
                    n += 1
                    src = ("p", f.all_params()[1])
                    ends = lambda t: t[0] in ("val", "elem") and \
                        contains(t, lambda x: x == src)
                    terms = list(e.args[1])
                    for o in each.feeding(st, *e.args[1]):
                        for ent in st.objs.get(o[2], ()):
                            terms.extend(ent[1:-1])
                    if any(uncleaned(t, ends) for t in terms):
                        bad.append((e.line, "the ends of the sweep are used as"
                                    " they were given"))
        if n:
            verdict(chk, "given-converts", f, "ends of an automatic sweep",
                    bad, n)


# --- values that are read out

def read(chk):
    f = func(chk, "gpkit.keydict.KeyDict.__call__")
    if f is not None:
        bad, n = [], 0
        for st, v in paths(chk, f).ret:
            n += 1
            units = contains(v, lambda t: t[0] == "attr" and
                             t[2] == "units") or (
                contains(v, dimless) and any(
                    isunits(strip(t)) and not b
                    for t, b in st.facts.items()))
            if v[0] == "call" and units:
                continue
            if v[0] == "bin" and v[1] == "*" and units:
                continue
            isd = any(t[0] == "isinstance" and b and strip(t[1]) == strip(v)
                      for t, b in st.facts.items())
            if v[0] == "obj" or isd:
                vals = []
                for e, facts in walk(st.events, st.facts):
                    if e.kind == "setitem":
                        vals.append((e.line, e.args[2], facts))
                for ents in st.objs.values():
                    vals += [(f.node.lineno, x[2], st.facts) for x in ents
                             if x[0] == "kv"]
                for line, t, facts in vals:
                    if not contains(t, lambda x: x[0] == "attr" and
                                    x[2] == "units" or dimless(x)):
                        bad.append((line, "a value is given without its units:"
                                    " %s" % shown(t, 60)))
                if not vals:
                    if not any(e.kind == "loop" and len(e.args[2]) == 0
                               for e, _ in walk(st.events, {})):
                        bad.append((f.node.lineno, "values of several keys are"
                                    " given without units"))
                continue
            bad.append((f.node.lineno, "a value is given without its units:"
                        " %s" % shown(v, 60)))
        verdict(chk, "read-united", f, "value with its units", bad, n)
    f = func(chk, "gpkit.nomials.data.NomialData.cs")
    if f is not None:
        bad, n = [], 0
        for st, v in paths(chk, f).ret:
            if v[0] == "attr" or contains(v, lambda t: t[0] == "attr" and
                                          t[2] == "units"):
                continue
            n += 1
            if not any(isunits(t) and not b for t, b in st.facts.items()):
                bad.append((f.node.lineno, "coefficients are given without"
                            " units"))
        line, why = bad[0] if bad else (None, None)
        chk.ob("read-united", f, "coefficients with units", not bad, why, line)
    f = func(chk, "gpkit.nomials.data.NomialData.__init__")
    if f is not None:
        bad = []
        for st, _ in paths(chk, f).ret:
            got, u = set_units(st, SELF)
            if not got or not contains(u, lambda t: t[0] == "attr" and
                                       t[2] == "units"):
                bad.append((f.node.lineno, "an expression does not take its"
                            " map's units"))
        line, why = bad[0] if bad else (None, None)
        chk.ob("read-united", f, "units of an expression", not bad, why, line)
    f = func(chk, "gpkit.nomials.variables.Variable.__init__")
    if f is not None:
        bad, n = [], 0
        for st, _ in paths(chk, f).ret:
            maps = {e.args[0] for e in flat_events(st.events)
                    if e.kind == "new" and e.args[0][1] == MAP}
            for m in maps:
                m = m if m[0] == "new" else m
                n += 1
                got, u = set_units(st, m)
                if not got or not contains(u, lambda t: t[0] == "attr" and
                                           t[2] == "units"):
                    bad.append((f.node.lineno, "a variable's map does not have"
                                " the variable's units"))
        if n:
            verdict(chk, "read-united", f, "units of a variable", bad, n)


def equality(chk):
    "Expressions of the same numbers in other units are not equal."
    f = func(chk, "gpkit.nomials.data.NomialData.__eq__")
    if f is None:
        return
    bad, n = [], 0
    for st, v in paths(chk, f).ret:
        if v[0] == "k" and v != K(True) or is_const(v) and not v[2] or \
                v == ("b", "NotImplemented"):
            continue
        if v[0] in ("call", "new"):
            return
        n += 1

        def units(t):
            return t[0] == "cmp" and contains(t, lambda x: x[0] == "attr" and
                                              x[2] == "units")
        if not contains(v, units) and not any(
                contains(strip(t), units) for t in st.facts):
            bad.append((f.node.lineno, "expressions are equal though their"
                        " units were not compared"))
    verdict(chk, "read-united", f, "equality of expressions", bad, n)


def of_units(t):
    return t == K("units") or t[0] in ("attr", "getattr", "hasattr") and \
        t[2] in ("units", K("units"))


def restored(chk):
    "What is interpolated from magnitudes is given its units back."
    cls = "gpkit.tools.autosweep.SolutionOracle"
    for r in everything(chk):
        f = r.func
        if f.cls is None or f.cls.qual != cls:
            continue
        bad, n = [], 0
        for st, v in r.ret:
            us = [t for t, b in st.facts.items() if b and
                  contains(t, of_units) and
                  t[0] in ("call", "getattr", "default", "attr")]
            if not us:
                known = any(contains(t, of_units)
                            for t in list(st.facts) + [v])
                if v != K(None) and not known and any(
                        e.kind == "call" and e.args[0][0] == "attr" and
                        e.args[0][2] in ("posy_at", "cost_at")
                        for e in flat_events(st.events)):
                    n += 1
                    bad.append((f.node.lineno, "interpolated magnitudes are"
                                " given, whatever their units"))
                continue
            n += 1
            if not contains(v, lambda t: t in us):
                bad.append((f.node.lineno, "%s is given without its units" %
                            shown(v, 60)))
        if n:
            line, why = bad[0] if bad else (None, None)
            chk.ob("read-united", f, "interpolated values", not bad, why, line)
