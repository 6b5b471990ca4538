ID = "c07-unknown-status-close"
PROPERTY = "C07"
NEEDS = "cvxopt stopping with status 'unknown' at a point it considers nearly feasible"
BREAKS = "a point that the solver did not report optimal is returned as a solution"
EDITS = [("solvers/cvxopt.py", '''    if solution["status"] != "optimal":
''', '''    if solution["status"] != "optimal" and not (
            solution["status"] == "unknown"
            and (solution["primal infeasibility"] or 1) < 1e-7
            and (solution["dual infeasibility"] or 1) < 1e-7):
''')]
DEMO = '''
import gpkit.solvers.cvxopt as back
from gpkit import Variable, Model
from gpkit.exceptions import Infeasible
real = back.gp


def stopped(*args, **kwargs):
    out = real(*args, **kwargs)
    out["status"], out["primal infeasibility"] = "unknown", 1e-9
    out["dual infeasibility"] = 1e-9
    return out


back.gp = stopped
x = Variable("x")
m = Model(x + 1/x, [x >= 2])
try:
    m.solve("cvxopt", verbosity=0)
except Infeasible:
    pass
else:
    raise SystemExit("an unknown status became a solution")
'''
