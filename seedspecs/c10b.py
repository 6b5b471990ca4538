ID = "c10-tiny-terms-of-signomials"
PROPERTY = "C10"
NEEDS = "a signomial constraint with a term whose coefficient is below 1e-8, as after a change of units"
BREAKS = "terms with very small coefficients are left out of both sides of a signomial constraint"
EDITS = [("nomials/math.py", "            if c > 0:\n                py[exp] = c\n            elif c < 0:\n", "            if c > 1e-8:\n                py[exp] = c\n            elif c < -1e-8:\n")]
DEMO = '''
from gpkit import Variable, SignomialsEnabled
x, y, z = Variable("x"), Variable("y"), Variable("z")
for small in (0.5, 1e-9):
    with SignomialsEnabled():
        s = x + small*y - small*z - 1
    pos, neg = s.posy_negy()
    assert len(pos.hmap) == 2 and len(neg.hmap) == 2, (small, pos, neg)
'''
