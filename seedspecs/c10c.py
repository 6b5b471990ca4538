ID = "c10-old-terms-of-approximations"
PROPERTY = "C10"
NEEDS = "a sequential program in which a later approximation of a constraint has fewer exponents than an earlier one"
BREAKS = "entries of an earlier approximation stay in the matrix handed to the solver"
EDITS = [("constraints/sgp.py", "                for row_idx in a_idxs:  # number of exps decreased\n", "                for row_idx in a_idxs[1:]:  # number of exps decreased\n")]
DEMO = '''
import numpy as np
from gpkit import Variable, Model, SignomialsEnabled
from gpkit.nomials import Monomial


x, y, z = Variable("x"), Variable("y"), Variable("z")
with SignomialsEnabled():
    m = Model(x*z, [x >= 2 - y, y <= 0.5*x, z >= 1 + 1/(x*y), y >= 0.1])
p = m.sp()
con, = p.sgpconstraints
original = con.as_gpconstr


def approximated(x0):
    out = original(x0)
    if x0.get("drop"):
        out.unsubbed = [x*1.0/x*0.5 + 1/x]
    return out


def matrix():
    A = np.zeros((len(p._gp.exps), len(p._gp.varidxs)))
    for r, c, d in zip(p._gp.A.row, p._gp.A.col, p._gp.A.data):
        A[r, c] += d
    return A


def expected():
    A = np.zeros((len(p._gp.exps), len(p._gp.varidxs)))
    for i, exp in enumerate(p._gp.exps):
        for vk, e in exp.items():
            A[i, p._gp.varidxs[vk]] = e
    return A


p.gp({x.key: 1.0, y.key: 0.4, z.key: 2.0})
assert np.allclose(matrix(), expected())
con.as_gpconstr = lambda x0: original(x0)
hmaps = []
full = original({x.key: 1.5, y.key: 0.6, z.key: 2.0})


class Fewer:
    "An approximation whose denominators happen to depend on less."
    def as_hmapslt1(self, _):
        hmap, = full.as_hmapslt1({})
        out = hmap.copy()
        out.units = hmap.units
        out.clear()
        for exp, c in hmap.items():
            new = exp.copy()
            new.hashvalue = None
            if x.key in new and len(new) > 1:
                del new[x.key]
            elif len(new) == 1:
                new = type(exp)({})
            out[new] = out.get(new, 0) + c
        return [out]


con.as_gpconstr = lambda x0: Fewer()
p.gp({x.key: 1.5, y.key: 0.6, z.key: 2.0})
n = len(p._gp.exps)
got, want = matrix(), expected()
assert np.allclose(got, want), (got, want)
'''
