"Rewrites gpsa/baseline.py from the current tree (run after a fix commit)."
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from gpsa import model
from gpsa.baseline import BASELINE_FUNCTIONS as OLD
prog = model.Program(os.environ.get("GPSA_REPO", "/repo"))
names = sorted({f.qual for f in prog.all_functions()
                if not f.module.name.startswith("gpkit.tests")})
print("new:", sorted(set(names)-OLD), "gone:", sorted(OLD-set(names)))
if "--write" in sys.argv:
    path = os.path.join(HERE, "gpsa", "baseline.py")
    head = open(path).read().split('BASELINE_FUNCTIONS')[0]
    open(path, "w").write(head + 'BASELINE_FUNCTIONS = frozenset("""\n'
                          + "\n".join(names) + '\n""".split())\n')
