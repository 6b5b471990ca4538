"""Running one property's rules and reporting what they decided."""
import ast
import json
import os
import time
import traceback

from .model import AnalysisBroken, program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("GPSA_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Check:
    "Obligations and findings of one property on one program."

    def __init__(self, prop, tier, prog):
        self.prop, self.tier, self.prog = prop, tier, prog
        self.rules = {}          # rule -> [number of obligations, discharged]
        self.findings = []
        self.functions = set()
        self.samples = []
        self.notes = []
        self.stats = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ob(self, rule, func, construct, ok, why="", line=None, path=None):
        """Records an obligation: rule `rule` at `construct` in `func`
        (a model.Func, or a qualified name)."""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        qual = getattr(func, "qual", func)
        if hasattr(func, "qual"):
            self.functions.add(qual)
        if ok:
            r[1] += 1
            if r[0] <= 3:
                self.samples.append({"rule": rule, "function": str(qual),
                                     "construct": str(construct),
                                     "verdict": "holds"})
            return True
        f = {"rule": rule, "function": str(qual), "construct": str(construct),
             "why": str(why)}
        if hasattr(func, "module"):
            f["file"] = func.module.relpath
            f["line"] = line or func.node.lineno
        elif line:
            f["line"] = line
        if path:
            f["path"] = [str(p) for p in path]
        key = (f["rule"], f["function"], f["construct"])
        if key not in {(g["rule"], g["function"], g["construct"])
                       for g in self.findings}:
            self.findings.append(f)
        return False

    def analysed(self, *quals):
        for q in quals:
            if isinstance(q, str):
                self.functions.add(q)
            elif hasattr(q, "qual"):
                self.functions.add(q.qual)
            else:
                self.functions.update(q)

    def need(self, rule, n):
        "A rule that matched too few sites is broken, not passing."
        got = self.rules.get(rule, [0])[0]
        if got < n:
            raise AnalysisBroken("rule %s met %i sites, expected at least %i"
                                 % (rule, got, n))


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                fields = dict(p.split("=", 1) for p in
                              line[6:].strip().split(" | ")[0].split(" ; "))
                out.setdefault(fields["property"], []).append(
                    (fields, line.split(" | ", 1)[-1]))
    return out


def run_rules(prop, tier, prog):
    import importlib
    mod = importlib.import_module("gpsa.rules.%s" % prop.lower())
    chk = Check(prop, tier, prog)
    mod.run(chk)
    chk.module = mod
    return chk


def check(prop, tier, quiet=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        prog = program()
        chk = run_rules(prop, tier, prog)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    import glob
    for old in glob.glob(os.path.join(EVIDENCE, prop + ".violation.*.json")):
        os.remove(old)
    known = load_known().get(prop, [])
    violations = 0
    for i, f in enumerate(chk.findings):
        hit = None
        for fields, text in known:
            if all(fields.get(k) == f[k] for k in
                   ("rule", "function", "construct")):
                hit = text
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit))
            continue
        violations += 1
        path = os.path.join(EVIDENCE, "%s.violation.%i.json" % (prop, i))
        with open(path, "w") as fil:
            json.dump(dict(f, property=prop, tree=prog.digest()), fil, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] %s:%s in %s: %s\n    %s" % (
            f["rule"], f.get("file", "?"), f.get("line", "?"), f["function"],
            f["construct"], f["why"]))
        for p in f.get("path", ()):
            print("      " + p)
    total = sum(r[0] for r in chk.rules.values())
    done = sum(r[1] for r in chk.rules.values())
    cov = {
        "explanation": (chk.module.__doc__ or "").strip(),
        "obligations": total, "discharged": done,
        "rules": {r: {"obligations": n, "discharged": d}
                  for r, (n, d) in sorted(chk.rules.items())},
        "functions_analysed": len(chk.functions),
        "functions": sorted(chk.functions)[:60],
        "modules_parsed": len(prog.modules),
        "functions_in_package": len(prog.functions),
        "samples": chk.samples[:12],
        "tree": prog.digest(),
    }
    cov.update(chk.stats)
    if chk.notes:
        cov["undecided"] = sorted(set(chk.notes))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 3),
          "assumptions": list(getattr(chk.module, "ASSUMPTIONS", [])),
          "violations": violations}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as fil:
        json.dump(ev, fil, indent=1)
    if not quiet:
        print("%s %s: %i obligations under %i rules, %i discharged,"
              " %i functions, %.1f s" % (prop, tier, total, len(chk.rules),
                                         done, len(chk.functions),
                                         time.time() - t0))
    return 1 if violations else 0


def node_src(node):
    try:
        return ast.unparse(node)
    except Exception:  # pylint: disable=broad-except
        return type(node).__name__
