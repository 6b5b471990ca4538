ID = "c16-hash-of-the-object"
PROPERTY = "C16"
NEEDS = "two equal monomials that were made separately, used as dictionary keys or in sets"
BREAKS = "equal monomials have different hashes"
EDITS = [("nomials/math.py", '''    "A Posynomial with only one term"

    __hash__ = Posynomial.__hash__
''', '''    "A Posynomial with only one term"

    def __hash__(self):
        return hash((self.exp, id(self)))
''')]
DEMO = '''
from gpkit import Variable
x, y = Variable("x"), Variable("y")
a, b = 2*x*y**2, y*x*y*2
assert a == b
assert hash(a) == hash(b)
assert len({a, b}) == 1 and b in {a: 1}
'''
