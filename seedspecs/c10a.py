ID = "c10-negligible-constant"
PROPERTY = "C10"
NEEDS = "a posynomial constraint whose constant part is negligibly small after substitution"
BREAKS = "a constraint that still holds variables is left out of the program because its constant part is tiny"
EDITS = [("nomials/math.py", '''        if coeff >= -self.feastol and len(hmap) == 1:
''', '''        if coeff >= -self.feastol and (len(hmap) == 1 or coeff > 1 - 1e-10):
''')]
DEMO = '''
from gpkit import Variable, Model
x, y, eps = Variable("x"), Variable("y"), Variable("eps")
for val in (1e-3, 1e-12):
    m = Model(x*y, [1 >= eps + 2/x, y >= 1], {eps: val})
    n = len(m.gp(checkbounds=False).hmaps)
    assert n == 3, (val, n)
'''
