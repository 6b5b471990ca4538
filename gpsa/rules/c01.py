"""C01: ownership and effect analysis.  For every operation of the algebra
(operators, methods and functions of the nomials, their maps and arrays, and
the building of constraints from them) the summaries of `effects` say which
objects that existed before the call are changed by it or by anything it
calls: an operand, and anything reachable from one, may not be among them,
memos excepted.  Only constructors change `self`, and the few routines whose
purpose is to fill in the object they are given are charged to their callers,
who have to hand them objects of their own."""
from ..flow import contains, is_new
from .effects import effects

TECHNIQUE = "interprocedural ownership and effect analysis of operands"
ASSUMPTIONS = [
    "methods are resolved by name over the package's classes; .hmap holds a "
    "NomialMap, .descr and .keymap dictionaries, .units a pint quantity",
    "libraries change their arguments only through the known in-place calls"]
SCOPE = ("gpkit.nomials.", "gpkit.small_classes.HashVector.",
         "gpkit.constraints.single_equation.", "gpkit.constraints.array.",
         "gpkit.constraints.sigeq.", "gpkit.units.")
BUILDERS = ("__init__", "__new__", "__setstate__", "__array_finalize__")
FILLS = {"gpkit.nomials.map.NomialMap.units_of_product": {"self"},
         "gpkit.nomials.map.subinplace": {"cp", "exp", "squished"},
         "gpkit.nomials.substitution.append_sub": {"constants", "sweep",
                                                   "linkedsweep"},
         "gpkit.nomials.variables.addmodelstodescr": {"descr"}}
MARKS = ("descr[]",)            # names' marks: C02's


def run(chk):
    fx = effects(chk)
    for q, s in sorted(fx.sums.items()):
        f = fx.runs[q].func
        if not q.startswith(SCOPE) or is_new(f):
            continue
        for p in f.all_params():
            if p == "self" and f.name in BUILDERS or \
                    p in FILLS.get(q, ()):
                continue
            bad = [w for w in s.mut.values() if w.root == ("p", p)
                   and protected(f, w)]
            bad.sort(key=lambda w: (len(w.via), w.line))
            w = bad[0] if bad else None
            chk.ob("operand-unchanged", f, p, w is None,
                   w and "%s %s is changed%s" % (
                       "the operand" if p == "self" else "the argument",
                       p + ("" if w.field == "[]" else "'s " + w.field),
                       trace(w)),
                   w and w.line, path=w and ["%s:%s" % v for v in w.via])
        for w in s.mut.values():
            if w.root[0] == "g" and protected(f, w) and \
                    not w.via and not q.startswith("gpkit.units."):
                chk.ob("shared-constant", f, w.root[1], False,
                       "%s, shared by all expressions, is changed"
                       % w.root[1], w.line)
    kept_apart(chk, fx)
    chk.stats["functions summarised"] = len(fx.sums)
    chk.stats["rounds"] = fx.rounds
    chk.need("operand-unchanged", 60)


def kept_apart(chk, fx):
    """What is kept under an attribute whose entries are later changed in place
    is not an operand itself."""
    filled = {}
    for q, own in fx.owns.items():
        if not q.startswith(SCOPE):
            continue
        for e, facts in own.acting():
            for base, _, field, ev in own.writes(e, facts):
                if ev.kind in ("setitem", "delitem", "call") and \
                        base[0] == "attr" and field.endswith("[]") and \
                        not fx.matters(field):
                    filled.setdefault(base[2], q)
    for q, own in sorted(fx.owns.items()):
        f = fx.runs[q].func
        if not q.startswith(SCOPE):
            continue
        for e, facts in own.acting():
            if e.kind != "set" or e.args[1] not in filled or \
                    own.immutable(e.args[2], facts):
                continue
            v = e.args[2]
            got = {r[1] for r, lv in own.own(v, "i", facts)
                   if r[0] == "p" and lv == "i"}
            if v[0] == "attr" and v[2] == "hmap":
                got |= {r[1] for r, lv in own.own(v, "i", facts)
                        if r[0] == "p"}
            chk.ob("operand-unchanged", f, "." + e.args[1], not got,
                   "%s itself is kept as .%s, whose entries %s changes" % (
                       " or ".join(sorted(got)), e.args[1],
                       filled[e.args[1]]), e.line)


def trace(w):
    return "".join(", by %s" % q for q, _ in w.via[:3])


def protected(f, w):
    if w.field in MARKS:
        return False
    if w.field == "hashvalue" and any(
            q.endswith(".__hash__") for q, _ in w.via):
        return False          # judged in that __hash__ itself
    if w.field == "hashvalue" and w.guard is not None and \
            f.name == "__hash__":
        ev = w.guard[0]       # filled in: not made from the one before
        if ev.kind == "set" and not contains(
                ev.args[2], lambda x: x[0] == "attr" and
                x[2] == "hashvalue"):
            return False
    return True
