"""Normal forms of arithmetic terms: quotients of polynomials over atoms, so
that two ways of writing the same formula are recognised as one."""
from fractions import Fraction

from ..flow import is_const, strip, subterms

LIMIT = 400


class Poly(dict):
    "monomial (sorted tuple of (atom, power)) -> coefficient"


def const(c):
    return Poly({(): Fraction(c)}) if c else Poly()


def atom(a, n=1):
    return Poly({((a, Fraction(n)),): Fraction(1)})


def add(p, q, s=1):
    out = Poly(p)
    for m, c in q.items():
        v = out.get(m, 0) + s*c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def times(p, q):
    out = Poly()
    for m, c in p.items():
        for n, d in q.items():
            powers = dict(m)
            for a, x in n:
                powers[a] = powers.get(a, 0) + x
            key = tuple(sorted(((a, x) for a, x in powers.items() if x),
                               key=repr))
            v = out.get(key, 0) + c*d
            if v:
                out[key] = v
            else:
                out.pop(key, None)
            if len(out) > LIMIT:
                raise OverflowError
    return out


def invert(p):
    "1/p of a single monomial, else None."
    if len(p) != 1:
        return None
    (m, c), = p.items()
    return Poly({tuple((a, -x) for a, x in m): 1/c})


def is_call_to(t, *names):
    if t[0] != "call":
        return False
    f = t[1]
    name = f[1].rpartition(".")[2] if f[0] in ("b", "g") else \
        f[2] if f[0] == "attr" else ""
    return name in names


def ratio(t, sub=None):
    """(numerator, denominator) of a term; sub(t) may replace a term by
    another (or return None)."""
    if sub is not None:
        r = sub(t)
        if r is not None and r != t:
            return ratio(r, sub)
    if is_const(t) and isinstance(t[2], (int, float)) and \
            not isinstance(t[2], bool) and t[2] == t[2] and \
            abs(t[2]) != float("inf"):
        return const(Fraction(t[2]).limit_denominator(10**40)), const(1)
    if t[0] == "neg":
        n, d = ratio(t[1], sub)
        return times(const(-1), n), d
    if is_call_to(t, "float") and len(t[2]) == 1:
        return ratio(t[2][0], sub)
    if t[0] == "bin" and t[1] in ("+", "-", "*", "/", "**"):
        op = t[1]
        n1, d1 = ratio(t[2], sub)
        if op == "**":
            if is_const(t[3]) and isinstance(t[3][2], int) and \
                    not isinstance(t[3][2], bool) and abs(t[3][2]) <= 6:
                k = t[3][2]
                if k < 0:
                    n1, d1, k = d1, n1, -k
                n, d = const(1), const(1)
                for _ in range(k):
                    n, d = times(n, n1), times(d, d1)
                return n, d
            return atom(canon(t, sub)), const(1)
        n2, d2 = ratio(t[3], sub)
        if op in "+-":
            if d1 == d2:
                return add(n1, n2, 1 if op == "+" else -1), d1
            return add(times(n1, d2), times(n2, d1),
                       1 if op == "+" else -1), times(d1, d2)
        if op == "*":
            return times(n1, n2), times(d1, d2)
        return times(n1, d2), times(d1, n2)
    if is_call_to(t, "abs", "absolute", "fabs") and len(t[2]) == 1:
        n, d = ratio(t[2][0], sub)
        return atom(("abs", unsigned(n), unsigned(d))), const(1)
    if is_call_to(t, "log") and len(t[2]) == 1:
        n, d = ratio(t[2][0], sub)
        if len(n) == 1 and len(d) == 1:      # logs of products split up
            out = Poly()
            for p, s in ((n, 1), (d, -1)):
                (m, c), = p.items()
                for a, x in m:
                    out = add(out, times(const(x*s), atom(("log", a))))
                if c != 1:
                    out = add(out, times(const(s), atom(("log", c))))
            return out, const(1)
        return atom(("log", frozen(n), frozen(d))), const(1)
    return atom(canon(t, sub)), const(1)


def canon(t, sub=None):
    "An atom: the term with its loop identities removed."
    return strip(t)


def frozen(p):
    return tuple(sorted(p.items(), key=repr))


def unsigned(p):
    "The polynomial up to its sign."
    f = frozen(p)
    g = frozen(times(const(-1), p))
    return min(f, g, key=repr)


def equal(a, b, sub=None):
    "The two terms are the same function of their atoms."
    try:
        n1, d1 = ratio(a, sub)
        n2, d2 = ratio(b, sub)
        return times(n1, d2) == times(n2, d1)
    except (OverflowError, ZeroDivisionError):
        return False
