"""C03: write permissions on the model definition.  The ownership and effect
analysis gives, for every function of the package, the writes it makes to
objects that existed before it was called, with the field written (through
aliases, helpers and loops).  Fields that make up what the user wrote - cost,
constraints and their expressions, maps of terms, units, substitutions,
bounds, variables' descriptions - may only be written while their object is
being built; elsewhere each write needs a permission that says why it is not
the user's definition that changes.  Containers handed in as arguments may only
be filled in by the routines whose purpose that is, and in them only the
arguments named.  Permitted temporary writes to substitutions must be undone
on every exit, which C04's typestate analysis decides."""
from ..flow import contains, is_const, is_new, show
from . import c04
from .c01 import protected
from .effects import effects

TECHNIQUE = "interprocedural effect analysis against write permissions on model fields, with typestate of temporary writes"
ASSUMPTIONS = c04.ASSUMPTIONS[:2] + [
    "methods are resolved by name over the package's classes; user-supplied"
    " callbacks (linked functions, process_result hooks) do not edit models",
    "an attribute outside the definition's fields is a result or a memo"]
BUILDERS = ("__init__", "__new__", "__setstate__", "__array_finalize__",
            "__init_subclass__")
DEFINITION = {
    "cost", "substitutions", "constraints", "constraintset", "left", "right",
    "oper", "hmap", "units", "ast", "hashvalue", "vks", "idxlookup",
    "unique_varkeys", "lineage", "lineagestr", "bounded", "meq_bounded",
    "key", "keys", "veckey", "descr", "eqstr", "unitrepr",
    "original_constraints", "relaxvars", "constants", "freedvars", "unsubbed",
    "exp", "p_lt", "m_gt", "approxconstraints", "sgpconstraints",
    "gpconstraints", "bound_varkeys", "lowerbound", "upperbound", "reltol",
    "senstol", "any_nonpositive_cs", "values"}
PROGRAM = {"hmaps", "exps", "cs", "A", "p_idxs", "m_idxs", "k", "a_idxs",
           "row", "col", "data", "x0"}
TEMPORARY = "undone on every exit (C04's typestate)"
FRESH = "an object the same class made"
PURPOSE = "setting substitutions is the purpose"
FIELDS = {      # (function, field): why this is not the user's definition
    ("gpkit.constraints.set.ConstraintSet._update", "substitutions[]"):
        "part of building the set",
    ("gpkit.constraints.set.ConstraintSet._update", "vks[]"):
        "part of building the set",
    ("gpkit.constraints.set.ConstraintSet._update", "bounded[]"):
        "part of building the set",
    ("gpkit.constraints.set.ConstraintSet._update", "meq_bounded[]"):
        "part of building the set",
    ("gpkit.constraints.model.Model.sweep", "substitutions[]"): TEMPORARY,
    ("gpkit.tools.autosweep.autosweep_1d", "substitutions[]"): TEMPORARY,
    ("gpkit.tools.autosweep.recurse_splits", "substitutions[]"): TEMPORARY,
    ("gpkit.interactive.plot_sweep.plot_1dsweepgrid", "substitutions[]"):
        "puts back what was there",
    ("gpkit.interactive.widgets.modelinteract", "substitutions[]"): PURPOSE,
    ("gpkit.interactive.widgets.modelinteract.<locals>.resolve",
     "substitutions[]"): PURPOSE,
    ("gpkit.constraints.bounded.varkey_bounds", "units"):
        "the bounding variable it just made",
    ("gpkit.nomials.map.NomialMap.units_of_product", "units"):
        "part of building a map",
    ("gpkit.nomials.map.subinplace", "hashvalue"):
        "an exponent vector its caller made",
}
OWN_PROGRAM = {      # its own approximating program, made by __init__
    "gpkit.constraints.gp.GeometricProgram.gen",
    "gpkit.constraints.sgp.SequentialGeometricProgram.gp"}
MARKS = {"gradients", "necessarylineage"}
BUILDER = "gpkit.constraints.set.ConstraintSet.__init__"
OWNED = {"substitutions[]", "vks[]", "bounded[]"}     # by each set alone
BONUS = {"gpkit.constraints.set.ConstraintSet.__init__"}
FILLS = {       # function: the arguments it is there to fill in
    "gpkit.build.MosekCLI.look": {"gpkit.build.settings"},
    "gpkit.build.build": {"gpkit.build.settings"},
    "gpkit.constraints.bounded.Bounded.process_result": {"result"},
    "gpkit.constraints.gp.GeometricProgram._generate_nula": {"solver_out"},
    "gpkit.constraints.gp.fulfill_meq_bounds": {"meq_bounds",
                                                "missingbounds"},
    "gpkit.constraints.gp.gen_meq_bounds": {"missingbounds"},
    "gpkit.constraints.prog_factories.evaluate_linked": {"constants"},
    "gpkit.constraints.prog_factories.run_sweep": {"constants", "solution"},
    "gpkit.constraints.relax.ConstantsRelaxed.process_result": {"result"},
    "gpkit.constraints.set.add_meq_bounds": {"bounded", "meq_bounded"},
    "gpkit.nomials.map.NomialMap.units_of_product": {"self"},
    "gpkit.nomials.map.subinplace": {"cp", "exp", "squished"},
    "gpkit.nomials.substitution.append_sub": {"constants", "sweep",
                                              "linkedsweep"},
    "gpkit.nomials.variables.addmodelstodescr": {"descr"},
    "gpkit.small_classes.SolverLog.write": {"self"},
    "gpkit.small_classes._append_dict": {"d_in", "d_out"},
    "gpkit.small_classes._enlist_dict": {"d_out"},
    "gpkit.small_classes._enray": {"d_out"},
    "gpkit.small_classes._index_dict": {"d_out"},
    "gpkit.small_scripts.appendsolwarning": {"result", "category"},
    "gpkit.tools.autosweep.SolutionOracle.plot": {"posys"},
    "gpkit.units.qty": {"gpkit.units.QTY_CACHE"},
}
SCOPE = ("gpkit.constraints.", "gpkit.nomials.", "gpkit.tools.",
         "gpkit.solvers.", "gpkit.interactive.plot_sweep.",
         "gpkit.interactive.widgets.", "gpkit.small_scripts.",
         "gpkit.small_classes.", "gpkit.globals.", "gpkit.varkey.",
         "gpkit.units.")
# what these are for is to change themselves or the user's controls
CONTAINERS = ("gpkit.interactive.widgets.modelcontrolpanel",
              "gpkit.interactive.widgets.modelinteract",
              "gpkit.tools.docstring.")
# only reached by their purpose: checks made by the user on their own model
LOCAL_ITEMS = {
    "gpkit.constraints.model.Model.verify_docstring": {"self"},
    "gpkit.constraints.sgp.SequentialGeometricProgram.localsolve": {"self"}}


def run(chk):
    fx = effects(chk)
    for q in sorted(fx.sums):
        f = fx.runs[q].func
        if not q.startswith(SCOPE) or is_new(f):
            continue
        chk.analysed([q])
        bad = {}
        for w in fx.owns[q].effects():
            if not w.here and not (q == BUILDER and w.root[0] == "p" and
                                   w.root[1] != "self" and
                                   w.field in OWNED):
                continue            # charged where the field is named
            why = judge(f, q, w)
            if why is not None:
                old = bad.get(w.field)
                if old is None or w.line < old[0].line:
                    bad[w.field] = (w, why)
        for e in descriptions(fx, q):
            k = written_key(e)
            if k not in MARKS and not (q in BONUS and k in ("value", None)):
                bad.setdefault("descr[]", (e, "%s, a variable's description,"
                                           " is changed (%r)" % (
                                               show(e.base)[:80], k)))
        chk.ob("definition-written", f, "model fields", not bad,
               "; ".join(y for _, y in bad.values()),
               min((w.line for w, _ in bad.values()), default=None),
               path=["%s:%s" % v for w, _ in bad.values() for v in w.via])
    chk.need("definition-written", 100)
    c04.run(chk)


class Item:
    via = ()

    def __init__(self, e, base):
        self.guard, self.base, self.line = (e, {}), base, e.line


def descriptions(fx, q):
    "Writes into the .descr of something that was not made here."
    own = fx.owns[q]
    for e in fx.runs[q].events:
        for base, level, field, _ in own.writes(e, {}):
            if field == "descr[]" and level == "i" and not fresh(base):
                yield Item(e, base)


def fresh(t):
    while t[0] in ("attr", "sub", "elem"):
        t = t[1]
    return t[0] in ("new", "obj") or t == ("p", "self")


def judge(f, q, w):
    "What is wrong with a write, if anything."
    name = w.field[:-2] if w.field.endswith("[]") else w.field
    root = w.root[1]
    if w.root == ("p", "self") and f.name in BUILDERS and w.field != "descr[]":
        return None
    if name == "" or w.field == "?":
        if root in FILLS.get(q, ()) or \
                f.name == "process_result" and root == "result" or q.startswith(CONTAINERS) or \
                w.level in (1, 2, 3, 4) and \
                root in LOCAL_ITEMS.get(q, ()):
            return None
        if w.root == ("g", "gpkit.small_classes.EMPTY_HV"):
            return None             # nothing sits in it
        return "%s (or something inside it) is changed in place%s" % (
            shown(root), via(w))
    if name not in DEFINITION | PROGRAM:
        return None
    if (q, w.field) in FIELDS or name == "hashvalue" and not protected(f, w):
        return None
    if name in PROGRAM:
        if w.root == ("p", "self") and q in OWN_PROGRAM:
            return None
        return "%s of a program is changed%s" % (name, via(w))
    if name == "unsubbed" and q in OWN_PROGRAM and w.guard is not None and \
            contains(w.guard[0].args[0], lambda x: x[0] == "attr" and
                     x[2] == "approxconstraints"):
        return None
    if name == "descr" and w.field == "descr[]":
        k = written_key(w)
        if k in MARKS or q in BONUS and k == "value":
            return None
        if q in BONUS and k is None:
            return None
    return "%s's %s is changed%s" % (
        shown(root), name + (" (in place)" if w.field != name else ""),
        via(w))


def shown(root):
    return "the model" if root == "self" else root


def via(w):
    return "".join(", by %s" % q for q, _ in w.via[:2])


def written_key(w):
    "The constant key of a written item, if it is one."
    if w.guard is None:
        return None
    e = w.guard[0]
    k = None
    if e.kind in ("setitem", "delitem", "setdefault") and len(e.args) > 1:
        k = e.args[1]
    elif e.kind == "call" and e.args[1]:
        k = e.args[1][0]
    return k[2] if k is not None and is_const(k) else None
