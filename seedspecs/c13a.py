ID = "c13-vector-elements"
PROPERTY = "C13"
NEEDS = "a vector variable whose first element is bounded and a later element is not"
BREAKS = "the elements of a vector after its first are not checked for bounds"
EDITS = [("constraints/gp.py", '''            upperbound, lowerbound = False, False
            for i in locs:''', '''            if var.idx and any(var.idx):
                continue  # the elements of a vector are bounded alike
            upperbound, lowerbound = False, False
            for i in locs:''')]
DEMO = '''
from gpkit import VectorVariable, Model
from gpkit.exceptions import UnboundedGP
x = VectorVariable(3, "x")
m = Model(x.prod(), [x[0] >= 1, x[2] >= 2])
try:
    m.gp()
except UnboundedGP as e:
    assert "lower" in str(e), str(e)
else:
    raise SystemExit("an unbounded program was formed")
'''
