ID = "c20-solves-not-counted"
PROPERTY = "C20"
NEEDS = "a local solve that needs more iterations than its limit allows"
BREAKS = "the reused program is counted once, so the iteration limit never ends a local solve"
EDITS = [("constraints/sgp.py", "            self.gps.append(gp)  # NOTE: SIDE EFFECTS\n", "            if not self.gps or self.gps[-1] is not gp:\n                self.gps.append(gp)  # NOTE: SIDE EFFECTS\n")]
DEMO = '''
import numpy as np
from gpkit import Variable, Model, SignomialsEnabled
calls = []


def creeping(*, c, A, k, meq_idxs, **_):
    "a solver whose costs fall forever"
    calls.append(1)
    assert len(calls) < 40, "more solves than the limit of 5"
    n = max(A.col) + 1
    return {"status": "optimal", "objective": 100.0*0.9**len(calls),
            "primal": np.zeros(n), "nu": np.ones(len(c))/len(c),
            "la": np.ones(len(k) - 1)}


x, y = Variable("x"), Variable("y")
with SignomialsEnabled():
    m = Model(x, [x >= 1 - y, y <= 0.1])
try:
    m.localsolve(solver=creeping, verbosity=0, iteration_limit=5)
except Exception as e:
    assert "iterations" in str(e), repr(e)
else:
    raise SystemExit("no error")
assert len(calls) <= 7, len(calls)
'''
