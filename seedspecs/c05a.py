ID = "c05-named-exception"
PROPERTY = "C05"
NEEDS = "an exception other than a plain error class leaving two nested naming environments, followed by the creation of a variable"
BREAKS = "a naming environment left by an exception keeps the variables' lineage in force"
EDITS = [("globals.py", '''        del self.namedvars[self.lineage]
        NamedVariables.lineage = self.lineage[:-1]   # NOTE: Side effects''', '''        del self.namedvars[self.lineage]
        if type_ is not None and len(self.lineage) > 1:
            return  # the outermost environment will clean up
        NamedVariables.lineage = self.lineage[:-1]   # NOTE: Side effects''')]
DEMO = '''
from gpkit import Variable, Model
from gpkit.globals import NamedVariables


class Inner(Model):
    def setup(self):
        raise KeyError("no")


class Outer(Model):
    def setup(self):
        try:
            self.inner = Inner()
        except KeyError:
            pass
        self.x = x = Variable("x")
        return [x >= 1]


o = Outer()
assert [n for n, _ in o.x.key.lineage] == ["Outer"], o.x.key.lineage
assert NamedVariables.lineage == ()
'''
