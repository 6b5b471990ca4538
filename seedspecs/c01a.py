ID = "c01-equivalent-units-in-place"
PROPERTY = "C01"
NEEDS = "converting an expression to units that differ in name but not in size"
BREAKS = "a conversion by a factor of one relabels the units of its operand"
EDITS = [("nomials/map.py", '''        nm = self * sunits.to(to_units).magnitude  # note that * creates a copy
''', '''        factor = sunits.to(to_units).magnitude
        nm = self * factor if factor != 1 else self
''')]
DEMO = '''
from gpkit import Variable
x, y = Variable("x", "N"), Variable("y", "m")
p = x*y + 2*x*y**2/y
before = (str(p.hmap.units), str(p), dict(p.hmap))
q = p.to("kg*m^2/s^2")
assert (str(p.hmap.units), str(p), dict(p.hmap)) == before, (before, str(p.hmap.units))
'''
