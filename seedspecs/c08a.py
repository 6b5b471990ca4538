ID = "c08-sweep-skips-warnings"
PROPERTY = "C08"
NEEDS = "a sweep with skipsweepfailures during which one solver call returns no usable primal solution"
BREAKS = "a sweep skips over failures that are no infeasibility"
EDITS = [("constraints/prog_factories.py", "        except Infeasible as e:\n            last_error", "        except (Infeasible, RuntimeWarning) as e:\n            last_error")]
DEMO = '''
import numpy as np
from gpkit import Variable, Model
from gpkit.solvers.cvxopt import optimize
calls = []


def flaky(**kwargs):
    out = optimize(**kwargs)
    calls.append(1)
    if len(calls) == 2:
        out["primal"] = []
    return out


x, a = Variable("x"), Variable("a")
m = Model(x, [x >= a])
m.substitutions[a] = ("sweep", [1.0, 2.0, 3.0])
try:
    sol = m.solve(flaky, verbosity=0, skipsweepfailures=True)
except RuntimeWarning as e:
    assert "primal solution" in str(e), e
else:
    raise SystemExit("skipped a failure that is no infeasibility: %s" % sol["cost"])
'''
