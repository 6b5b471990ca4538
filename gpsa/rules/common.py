"Helpers shared by the rules."
import ast

from ..flow import Engine, Exc, Frame, Spec, State, is_const, show, subterms
from ..model import AnalysisBroken, walk_shallow

ENVIRONMENTS = ("gpkit.globals.SignomialsEnabled", "gpkit.globals.Vectorize",
                "gpkit.globals.NamedVariables")


def shown(t, n=160):
    s = show(t)
    return s if len(s) <= n else s[:n] + "..."


def chain(eng, func, st, selft, args, kwargs=()):
    "Calls func on a state: ([(state, value)], [(state, Exc)])."
    frame = Frame(func, cls=func.cls.qual if func.cls else None)
    eng.entry_frame = getattr(eng, "entry_frame", None) or frame
    outs = eng.call_function(func, selft, tuple(args), tuple(kwargs), st,
                             frame, func.node)
    return outs.ret, outs.exc


def raises_any(term):
    return ("BASE",)


def calls_in(func, own=True):
    "Call nodes of a function, nested functions excluded."
    for n in walk_shallow(func.node):
        if isinstance(n, ast.Call):
            yield n


def functions_with(prog, pred):
    "Functions whose own body holds a node for which pred is true."
    for f in prog.all_functions():
        for n in walk_shallow(f.node):
            if pred(f, n):
                yield f
                break


def callers_closure(prog, allowed):
    """The allowed functions plus every function that is only referred to,
    package-wide, from inside functions already in the closure."""
    refs = {}
    for f in prog.all_functions():
        for n in walk_shallow(f.node):
            name = None
            if isinstance(n, ast.Attribute):
                name = n.attr
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                name = n.id
            if name:
                refs.setdefault(name, set()).add(f.qual)
    out = set(allowed)
    changed = True
    while changed:
        changed = False
        for f in prog.all_functions():
            if f.qual in out or f.name.startswith("__"):
                continue
            users = refs.get(f.name, set()) - {f.qual}
            if users and users <= out:
                out.add(f.qual)
                changed = True
    return out


def backends(prog):
    """The solver back ends: {solver module: function that is called with the
    problem data}, as imported by the function that selects a solver."""
    out = {}
    for f in prog.all_functions():
        if f.module.name.startswith("gpkit.solvers"):
            continue
        for n in walk_shallow(f.node):
            if not isinstance(n, ast.ImportFrom):
                continue
            base = prog._abs_module(f.module, n)
            if not base.startswith("gpkit.solvers."):
                continue
            for a in n.names:
                q = prog.canonical(base + "." + a.name)
                g = prog.functions.get(q)
                if g is None:
                    continue
                if "A" in g.all_params():
                    out[base] = g
                    continue
                inner = [h for h in prog.all_functions()
                         if h.qual.startswith(g.qual + ".<locals>.")
                         and "A" in h.all_params()]
                if len(inner) == 1:
                    out[base] = inner[0]
    if len(out) < 3:
        raise AnalysisBroken("found only %i solver back ends" % len(out))
    return out


def judged(prog, seeds):
    """The functions to judge for a construct found in `seeds`: helpers that
    the reference tree did not have are replaced by what uses them (they are
    inlined there), and judged on their own only when nothing does."""
    from ..flow import is_new
    refs = {}
    for f in prog.all_functions():
        for n in walk_shallow(f.node):
            name = None
            if isinstance(n, ast.Attribute):
                name = n.attr
            elif isinstance(n, ast.Name):
                name = n.id
            if name:
                refs.setdefault(name, set()).add(f.qual)
    out, todo, seen = {}, list(seeds), set()
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        if not is_new(f):
            out[f.qual] = f
            continue
        top = f
        while top.parent is not None:
            top = top.parent
        names = {f.name, top.name}
        if top.cls is not None and top.name.startswith("__"):
            names = {top.cls.qual.rpartition(".")[2]}
        users = set()
        for n in names:
            users |= refs.get(n, set())
        users.discard(f.qual)
        if not users:
            out[f.qual] = f
        todo.extend(prog.functions[u] for u in users if u in prog.functions)
    return list(out.values())
