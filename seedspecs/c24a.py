ID = "c24-old-gradients-stay"
PROPERTY = "C24"
NEEDS = "a linked function that can be differentiated at one evaluation and not at a later one"
BREAKS = "gradients of an earlier evaluation are kept after differentiation failed"
EDITS = [("constraints/prog_factories.py", '''            v.descr.pop("gradients", None)
''', '''            v.descr.setdefault("gradients", {})
''')]
DEMO = '''
from gpkit import Variable, Model
a = Variable("a", 2.0)
mode = ["smooth"]


def fn(c):
    if mode[0] == "smooth":
        return 3*c[a]
    if hasattr(c[a], "x"):
        raise TypeError("not for numbers that are differentiated")
    return 5*c[a]


b = Variable("b", fn)
x = Variable("x")
m = Model(x, [x >= a*b])
m.solve(verbosity=0)
assert b.key.descr.get("gradients")
mode[0] = "rough"
sol = m.solve(verbosity=0)
assert abs(sol["cost"] - 20) < 1e-3, sol["cost"]
assert not b.key.descr.get("gradients"), b.key.descr["gradients"]
'''
