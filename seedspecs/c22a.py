ID = "c22-product-recorded-as-sum"
PROPERTY = "C22"
NEEDS = "printing the product of an array of monomials"
BREAKS = "the product of a monomial array is recorded, and printed, as its sum"
EDITS = [("nomials/array.py", 'out.ast = ("prod", (self, None))', 'out.ast = ("sum", (self, None))')]
DEMO = '''
from gpkit import VectorVariable
x = VectorVariable(3, "x")
p = x.prod()
assert len(p.hmap) == 1
assert p.ast[0] == "prod", p.ast
assert "prod" in str(p) and "sum" not in str(p), str(p)
'''
