"""Statements about all or some elements of a collection, as read from terms:
any(c <= 0 for c in m.values()), not all(...), min(m.values()) <= 0."""
from ..flow import K, is_const, strip
from . import each


def comp_parts(st, obj):
    """(entry, filter facts) of a comprehension's object, or None: one entry
    over one loop."""
    ents = st.objs.get(obj[2], ())
    if len(ents) != 1 or ents[0][0] != "item" or not ents[0][-1]:
        return None
    kept = []
    for ev in each.all_loops(st.events):
        if ev.args[0] == ("comp", obj):
            nexts = [p for p in ev.args[2] if p[0] == "next"]
            skips = [p for p in ev.args[2] if p[0] == "skip"]
            if skips and nexts:
                kept = [dict(p[2]) for p in nexts]
    return ents[0][1], kept


def some(st, t):
    """Reads a term as `some element satisfies c` (or, negated, `no element
    does`): (negated, condition, filter) or None."""
    if t[0] == "not":
        got = some(st, t[1])
        return got and (not got[0],) + got[1:]
    if t[0] == "call" and t[1] == ("b", "bool") and len(t[2]) == 1:
        return some(st, t[2][0])
    if t[0] == "call" and t[1] in (("b", "any"), ("b", "all")) and \
            len(t[2]) == 1 and t[2][0][0] == "obj":
        got = comp_parts(st, t[2][0])
        if got is None:
            return None
        cond, kept = got
        if t[1][1] == "all":
            return True, ("not", cond), kept
        return False, cond, kept
    return None


def nonpositive(st, t, coef):
    """Does the term say that some coefficient is not positive?  coef(term)
    gives the map a coefficient belongs to.  (True/False, map) or None when
    the term says something else."""
    got = some(st, t)
    if got is not None:
        neg, cond, kept = got
        if is_const(cond) and cond[2] and kept and len(kept) == 1 and \
                len(kept[0]) == 1:
            (cond, b), = kept[0].items()
            if not b:
                cond = ("not", cond)
        elif kept:
            return None
        m = at_most_zero(cond, True, coef)
        return None if m is None else (not neg, m)
    if t[0] == "cmp" and t[1] in ("<", "<=") and len(t) > 3:
        lo, hi = t[2], t[3]
        for v, out in ((lo, True), (hi, False)):
            if v[0] == "call" and v[1] == ("b", "min") and len(v[2]) == 1:
                m = values_of(st, v[2][0], coef)
                # min <= 0, or not 0 < min
                if m is not None and (out and t[1] == "<=" and hi == K(0)
                                      or not out and t[1] == "<" and
                                      lo == K(0)):
                    return out, m
    return None


def values_of(st, t, coef):
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "values":
        return t[1][1]
    if t[0] == "obj":
        got = comp_parts(st, t)
        if got and not got[1]:
            return coef(got[0])
    if t[0] == "call" and t[1][0] == "b" and t[1][1] in (
            "list", "tuple", "sorted") and len(t[2]) == 1:
        return values_of(st, t[2][0], coef)
    return None


def at_most_zero(c, b, coef):
    while c[0] == "not":
        c, b = c[1], not b
    if c[0] != "cmp" or c[1] not in ("<", "<="):
        return None
    zero = (K(0), K(0.0))
    if c[1] == "<=" and b and c[3] in zero:
        return coef(c[2])
    if c[1] == "<" and not b and c[2] in zero:
        return coef(c[3])
    return None


def coefficient(t):
    "The map of which a term is a generic coefficient."
    if t[0] == "val":
        return strip(t)[1]
    if t[0] == "elem":
        s = strip(t)[1]
        if s[0] == "call" and s[1][0] == "attr" and s[1][2] == "values":
            return s[1][1]
        return None
    if t[0] == "sub" and t[2][0] in ("key", "elem"):
        s = strip(t)
        if s[1] == s[2][1] or s[2][1][0] == "call" and \
                s[2][1][1] in (("attr", s[1], "keys"), ("b", "list")):
            return s[1]
    if t[0] == "sub" and t[2] == K(1) and t[1][0] == "elem":
        s = strip(t)[1][1]
        if s[0] == "call" and s[1][0] == "attr" and s[1][2] == "items":
            return s[1][1]
    return None
