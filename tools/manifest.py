"""Writes /verif/MANIFEST.json from properties.jsonl and the rules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from collections import OrderedDict
import importlib.util, sys
sys.path.insert(0, V)
NA = {
 "N01": "quantifies over the numeric values of expressions (exponent and coefficient arithmetic at every point); no static argument in reach bounds them. The structural halves (operand purity, units, directions, recorded operation) are C01, C11, C17 and C22.",
 "N02": "a statement about derivatives of an optimisation optimum computed by an external solver; needs numeric reasoning about dual values.",
 "N03": "depends on the numeric output of an external solver; what is decidable (every constraint handed over once, checks always run, only optimal status accepted) is C07, C10 and C14.",
 "N04": "an inequality between real functions at every point; a proof or numeric evaluation, not a property of the program text.",
 "N05": "numeric relation between optimal costs at unsampled points.",
 "N06": "equality of run-time object graphs after pickling by an external module, with values not bounded by the text.",
 "N07": "the parser is driven by user-written text evaluated with exec; which variables result is a run-time quantity of arbitrary strings.",
 "N08": "convergence and feasibility of a numeric iteration; its termination bound is C20.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    path = os.path.join(V, "gpsa", "rules", pid.lower() + ".py")
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
    elif os.path.exists(path):
        mod = importlib.import_module("gpsa.rules." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "python3 -m gpsa check %s" % pid,
            "thorough_cmd": "python3 -m gpsa check %s --tier thorough" % pid,
            "technique": getattr(mod, "TECHNIQUE", "path-sensitive value-flow analysis of the syntax tree"),
            "level": "other",
            "level_note": " ".join(("Static analysis of the current source, nothing executed. " + (mod.__doc__ or "") + " Assumes: " + "; ".join(getattr(mod, "ASSUMPTIONS", [])) + ".").split()),
        })
    else:
        na.append({"property": pid, "reason": "no check has been built for this property yet"})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q gpsa",
           "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo/gpkit on every run and never import it. Exit 2 means the analysis met code it cannot interpret (no answer)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
