ID = "c12-cost-checked-before-substitution"
PROPERTY = "C12"
NEEDS = "a cost whose only coefficient becomes zero by substitution"
BREAKS = "a cost that is not positive after substitution is handed to the solver"
EDITS = [("constraints/gp.py", "if any(c <= 0 for c in cost_hmap.values()):", "if any(c <= 0 for c in cost.hmap.values()):")]
DEMO = '''
from gpkit import Variable, Model
from gpkit.exceptions import InvalidPosynomial
x, a = Variable("x"), Variable("a")
m = Model(a*x, [x >= 1], {a: 0})
try:
    m.gp(checkbounds=False)
except InvalidPosynomial:
    pass
else:
    raise SystemExit("a cost of zero was accepted")
'''
