ID = "c15-bounds-in-another-order"
PROPERTY = "C15"
NEEDS = "several variables of which some are held only by the arbitrary bounds"
BREAKS = "bounds are built in another order than they are read, so the wrong variables are reported"
EDITS = [("constraints/bounded.py", "        bounding_constraints = varkey_bounds(self.bound_varkeys,\n                                             self.lowerbound, self.upperbound)\n", "        ordered = sorted(self.bound_varkeys, key=str)\n        bounding_constraints = varkey_bounds(ordered,\n                                             self.lowerbound, self.upperbound)\n")]
DEMO = '''
from gpkit import Variable
from gpkit.constraints.bounded import Bounded
xs = [Variable("x%i" % i) for i in range(12)]
b = Bounded([x >= 1 for x in xs])
for vk, pair in zip(b.bound_varkeys, b["variable bounds"]):
    vks = {k for c in pair for k in c.vks} if isinstance(pair, (list, tuple)) else None
    vks = vks if vks is not None else set(pair.vks)
    assert vks == {vk}, (vk, vks)
'''
