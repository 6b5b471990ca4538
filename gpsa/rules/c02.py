"""C02: effects of reporting.  The ownership and effect analysis gives, for
every function that makes a report (tables, summaries, diffs, exports,
diagrams, and all text and LaTeX forms), everything it and its callees write to
objects that existed before: nothing of a model, a solution or their variables
may be among it, save memos, the diagram's own working state and the temporary
lineage marks.  Marks are followed on every path of the routine that sets them,
with the body it wraps raising too: what it marked, and nothing marked before,
is unmarked on every exit.  A context manager that takes attributes or entries
away must have stored each before removing it, and put each back on exit
whatever happened inside."""
import ast

from ..flow import Engine, K, contains, flat_events, is_const, is_new, show, strip
from ..model import AnalysisBroken
from .c18 import Every
from .effects import effects

TECHNIQUE = "interprocedural effect analysis of reporting, with typestate of temporary marks and removals"
ASSUMPTIONS = [
    "methods are resolved by name over the package's classes; pandas, numpy,"
    " matplotlib and pickle do not change what they are given",
    "deleting an attribute that getattr just found, and marking a variable's"
    " description, do not raise"]
MARK = K("necessarylineage")
MODULES = ("gpkit.solution_array.", "gpkit.interactive.sankey.",
           "gpkit.repr_conventions.")
NAMES = {"__getstate__", "str_without", "latex", "lines_without",
         "rootlines", "_rootlines",
         "_rootlatex", "__str__", "__repr__", "_repr_latex_", "parse_ast",
         "unitstr", "latex_unitstr", "strify", "try_str_without",
         "lineagestr", "name_collision_varkeys", "_sort_by_name_and_idx",
         "__format__", "label", "cgroup", "table", "summary", "diff",
         "savetxt", "save", "latex_unicode", "str_without_lineage"}
# building a solution, and what C02's other rules judge
BUILD = {"gpkit.solution_array.SolutionArray.append",
         "gpkit.solution_array.SolSavingEnvironment.__enter__",
         "gpkit.solution_array.SolSavingEnvironment.__exit__"}
DIAGRAM = "gpkit.interactive.sankey.Sankey."
DEFINING = {"csenss", "cset", "solution", "csetlabel"}
LISTS = {"posys", "links", "axes", "filename", "lines", "decorated", "models",
         "excluded", "showvars", "exclude"}


def run(chk):
    fx = effects(chk)
    for q in sorted(fx.sums):
        f = fx.runs[q].func
        if is_new(f) or q in BUILD or not (
                q.startswith(MODULES) or f.name in NAMES):
            continue
        chk.analysed([q])
        w = min((w for w in fx.sums[q].mut.values() if harmful(f, q, w)),
                key=lambda w: (len(w.via), w.line), default=None)
        chk.ob("report-writes", f, "model, solution and variables", w is None,
               w and "%s is changed%s by a report%s" % (
                   "itself" if w.root[1] == "self" else w.root[1],
                   "" if w.field == "[]" else " (%s)" % w.field,
                   "".join(", in %s" % x for x, _ in w.via)),
               w and w.line, path=w and ["%s:%s" % v for v in w.via])
    chk.need("report-writes", 40)
    for q, r in sorted(fx.runs.items()):
        if any(e.kind in ("setitem", "setdefault") and e.args[1] == MARK or
               marking_call(e) for e in r.events) and not is_new(r.func):
            marks(chk, r.func)
            spent(chk, r.func)
    stores(chk)


def spent(chk, f):
    """A name bound to a generator (or map, filter, zip) can be gone through
    only once: marks set in one pass are not found by a second."""
    once = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                isinstance(n.targets[0], ast.Name):
            once.setdefault(n.targets[0].id, []).append(n.value)
    bad = None
    for name, values in sorted(once.items()):
        if len(values) != 1 or not (
                isinstance(values[0], ast.GeneratorExp) or
                isinstance(values[0], ast.Call) and
                isinstance(values[0].func, ast.Name) and
                values[0].func.id in ("map", "filter", "zip")):
            continue
        loops = [n for n in ast.walk(f.node) if isinstance(
            n, (ast.For, ast.comprehension)) and
            isinstance(n.iter, ast.Name) and n.iter.id == name]
        if len(loops) > 1:
            bad = bad or (name, values[0].lineno)
    chk.ob("marks-iterable", f, "what is gone through", bad is None,
           bad and "%s can be gone through only once, and is gone through"
           " again to take the marks away" % bad[0], bad and bad[1])


def harmful(f, q, w):
    name = w.field[:-2] if w.field.endswith("[]") else w.field
    root = w.root[1]
    if w.root == ("p", "self") and f.name in ("__init__", "__new__",
                                              "__array_finalize__"):
        return False
    if w.root[0] == "g":
        return name not in ("", "descr") and not w.via
    if root not in f.all_params():
        return False                # taken statement by statement
    if w.via and w.via[-1][0].endswith("SolverLog.write"):
        return False                # a file's write is not it
    if root in LISTS and name == "":
        return False                # an option, not what is reported on
    if w.via and w.via[-1][0].endswith("SolutionOracle.plot") and name == "":
        return False                # the list of things to plot
    if name == "descr":
        return not lineage_mark(w)
    if q.startswith(DIAGRAM):
        return name in DEFINING or w.via and \
            not w.via[-1][0].startswith(DIAGRAM)
    return True


def lineage_mark(w):
    "A write of the temporary mark, which the other rule follows."
    if w.via:
        return w.via[-1][0] == "gpkit.repr_conventions.necessary_lineage" or \
            w.how_key == MARK
    return w.how_key == MARK


def marking_call(e):
    "descr.update(necessarylineage=True) and the like."
    if e.kind != "call" or e.args[0][0] != "attr" or \
            e.args[0][2] not in ("update", "__setitem__"):
        return False
    if any(k == MARK[2] for k, _ in e.args[2]):
        return True
    return bool(e.args[1]) and e.args[1][0] == MARK


# ------------------------------------------------------------------ marks ----
class MarkSpec(Every):
    yield_raises = True
    implicit_raises = True

    def may_raise(self, eng, st, frame, what, term):
        if what == "call" and term[1][0] in ("g", "attr") and not (
                term[1][0] == "attr" and term[1][2] in (
                    "append", "add", "pop", "items", "keys", "values",
                    "get")):
            return ("BASE",)
        return ()


def marks(chk, f):
    try:
        eng = Engine(chk.prog, MarkSpec(chk.prog))
        outs = eng.run(f)
    except AnalysisBroken as e:
        chk.notes.append("undecided: %s (%s)" % (f.qual, e))
        return
    bad = {"return": None, "exception": None}
    before = None
    n = 0
    for how, states in (("return", outs.ret), ("exception", outs.exc)):
        for st, _ in states:
            n += 1
            units = list(steps(st.events))
            for i, (kind, c, line, kept) in enumerate(units):
                if kind != "mark":
                    continue
                off = [u for u in units[i+1:] if u[0] == "unmark"
                       and covers(st, u, c, kept)]
                if not off:
                    bad[how] = bad[how] or (
                        "what is marked here stays marked when the function"
                        " ends by %s" % ("returning" if how == "return"
                                         else "an exception"), line)
                elif not fresh_marks(st, c, kept):
                    before = before or (
                        "what was already marked is unmarked as well", line)
    for how, x in bad.items():
        chk.ob("marks-removed", f, "marks at " + how, x is None,
               x and x[0], x and x[1])
    chk.ob("marks-own", f, "marks", before is None, before and before[0],
           before and before[1])


def steps(events):
    """(mark | unmark, container or variable, line, loop paths) in order; a
    loop unmarks its container when every iteration does."""
    for e in events:
        if e.kind == "loop":
            c, paths = strip(e.args[0]), e.args[2]
            inner = [(p, list(steps(p[1]))) for p in paths]
            if any(u[0] == "mark" for _, us in inner for u in us):
                yield "mark", c, e.line, paths
            elif c == ("while",):
                popped = {emptied(u[1]) for _, us in inner for u in us
                          if u[0] == "unmark"} - {None}
                if len(popped) == 1 and all(
                        any(u[0] == "unmark" for u in us) or p[0] == "skip"
                        for p, us in inner):
                    yield "unmark", popped.pop(), e.line, paths
            elif any(u[0] == "unmark" for _, us in inner for u in us):
                ok = all(any(u[0] == "unmark" for u in us) or
                         absent(p) for p, us in inner
                         if p[0] in ("next", "skip", "continue", "break",
                                     "return"))
                if ok:
                    yield "unmark", c, e.line, paths
        elif e.kind in ("setitem", "setdefault") and e.args[1] == MARK or \
                marking_call(e):
            v = e.args[2] if e.kind == "setitem" else K(True)
            base = e.args[0] if e.kind != "call" else e.args[0][1]
            off = is_const(v) and not v[2]
            yield ("unmark" if off else "mark"), strip(base), e.line, ()
        elif e.kind == "delitem" and e.args[1] == MARK:
            yield "unmark", strip(e.args[0]), e.line, ()
        elif e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] in ("pop", "__delitem__") and e.args[1] and \
                e.args[1][0] == MARK:
            yield "unmark", strip(e.args[0][1]), e.line, ()


def emptied(t):
    "The list that t's description was popped from."
    if t[0] == "attr":
        t = t[1]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("pop", "popleft"):
        return strip(t[1][1])
    return None


def absent(p):
    "The path knows that there is no mark."
    return any((t[0] == "in" and t[1] == MARK or about_mark(t)) and not b
               for t, b in p[2])


def about_mark(t):
    return t[0] in ("attr", "getattr") and t[2] in (
        "necessarylineage", MARK) or t[0] == "call" and \
        t[1][0] == "attr" and t[1][2] == "get" and t[2] and t[2][0] == MARK


def covers(st, u, c, paths):
    "Whether unmarking u reaches all that was marked."
    if u[1] == c:
        return True
    if u[1][0] == "obj" and paths:      # collected while marking
        for kind, events, *_ in paths:
            ms = [m for m in steps(events) if m[0] == "mark"]
            for m in ms:
                if not any(a.kind == "append" and strip(a.args[0])[:2] ==
                           u[1][:2] or a.kind == "call" and
                           a.args[0][0] == "attr" and a.args[0][2] == "add"
                           for a in events):
                    return False
        return True
    return False


def fresh_marks(st, c, paths):
    "Whether only what was unmarked before gets marked."
    if paths and all(absent(p) for p in paths
                     if any(m[0] == "mark" for m in steps(p[1]))):
        return True
    if not paths:
        return any((about_mark(t) or t[0] == "in" and t[1] == MARK) and not b
                   for t, b in st.facts.items())
    for e in st.events:                 # the elements were chosen so
        if e.kind == "loop" and e.args[0][0] == "comp" and \
                strip(e.args[0][1]) == c:
            return all(absent(p) for p in e.args[2] if p[0] == "next")
        if e.kind == "loop":
            adding = [p for p in e.args[2] if any(
                a.kind == "append" and strip(a.args[0]) == c or
                a.kind == "call" and a.args[0][0] == "attr" and
                a.args[0][2] == "add" and strip(a.args[0][1]) == c
                for a in p[1])]
            if adding:
                return all(absent(p) for p in adding)
    return False


# ---------------------------------------------------------------- removals ----
def stores(chk):
    "Context managers of the solution module that take something away."
    prog = chk.prog
    for cq, cls in sorted(prog.classes.items()):
        if not cq.startswith(MODULES):
            continue
        enter, leave = cls.methods.get("__enter__"), \
            cls.methods.get("__exit__")
        if enter is None:
            continue
        try:
            eng = Engine(prog, Every(prog))
            ins = [s for s, _ in eng.run(enter).ret]
            outs = [] if leave is None else [
                s for s, _ in Engine(prog, Every(prog)).run(leave).ret]
        except AnalysisBroken as e:
            chk.notes.append("undecided: %s (%s)" % (cq, e))
            continue
        chk.analysed([enter.qual] + ([leave.qual] if leave else []))
        n = 0
        for st in ins:
            guard = {t: b for t, b in st.facts.items() if of_self(t)}
            for kind, c, name, line, trail in removals(st.events, ()):
                n += 1
                what = show(name) if kind == "entry" else "attribute"
                kept = stored(kind, c, name, trail, st.events) and \
                    not overwritten(st.events) and not one_place(st.events)
                chk.ob("removal-stored", enter, what, kept,
                       "removed from %s without having been stored"
                       % show(c)[:80], line)
                if not kept:
                    continue
                bad = None
                for so in outs:
                    if any(so.facts.get(t, b) is not b
                           for t, b in guard.items()):
                        continue
                    if nothing_taken(kind, c, name, st, so):
                        continue
                    if not put_back(kind, c, name, so):
                        bad = facts_shown(so.facts)
                chk.ob("removal-undone", leave or enter, what,
                       bad is None and bool(outs),
                       "%s taken from %s is not put back on every exit%s" % (
                           what, show(c)[:60], bad or ""),
                       leave and leave.node.lineno)
        chk.stats["removals followed in " + cq] = n


def nothing_taken(kind, c, name, st, so):
    """The exit sees that what the entry was stored in is None, which is what
    the removal gives when there was nothing to remove."""
    if kind != "entry":
        return False
    for e in flat_events(st.events):
        if e.kind != "set":
            continue
        v = strip(e.args[2])
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "pop" and \
                v[2] == (name, K(None)) and v[1][1] == strip(c) and \
                any(t[0] == "is" and t[2] == K(None) and b is True and
                    strip(t[1]) == ("attr", strip(e.args[0]), e.args[1])
                    for t, b in so.facts.items()):
            return True
    return False


def overwritten(events):
    "Whether a loop that takes things away starts its store afresh."
    for e in events:
        if e.kind == "loop" and e.args[0][0] != "comp":
            for p in e.args[2]:
                if any(x.kind == "set" and x.args[0] == ("p", "self") and
                       strip(x.args[2])[0] in ("obj", "new", "call", "attr",
                                               "getattr", "sub")
                       for x in p[1]) and any(True for _ in removals(
                           p[1], ())):
                    return True
                if overwritten(p[1]):
                    return True
    return False


def one_place(events):
    """Whether attributes of different names are stored in the same entry of
    the same object, the later in place of the earlier."""
    kept = {}
    for e in flat_events(events):
        if e.kind == "setitem" and strip(e.args[2])[0] in ("attr", "getattr"):
            v = strip(e.args[2])
            at = strip(e.args[0]), strip(e.args[1])
            if at[0][0] == "obj" and v[1] == at[1]:
                kept.setdefault(at, set()).add(v[2])
    return any(len(names) > 1 for names in kept.values())


def of_self(t):
    return contains(t, lambda x: x == ("p", "self")) and not contains(
        t, lambda x: x[0] in ("elem", "key", "val"))


def facts_shown(facts):
    return " (when %s)" % " and ".join(
        "%s%s" % ("" if b else "not ", show(t)[:60])
        for t, b in list(facts.items())[:3]) if facts else ""


def removals(events, trail):
    "(attr | entry, holder, name, line, what came before in the same path)"
    for i, e in enumerate(events):
        here = trail + tuple(events[:i])
        if e.kind == "loop":
            if e.args[0][0] == "comp":
                continue
            for p in e.args[2]:
                yield from removals(p[1], here)
        elif e.kind == "delattr":
            yield "attr", e.args[0], K(e.args[1]) \
                if isinstance(e.args[1], str) else e.args[1], e.line, here
        elif e.kind == "call" and e.args[0] == ("b", "delattr") and \
                len(e.args[1]) == 2:
            yield "attr", e.args[1][0], e.args[1][1], e.line, here
        elif e.kind == "delitem" and outer(e.args[0]):
            yield "entry", e.args[0], e.args[1], e.line, here
        elif e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] == "pop" and e.args[1] and \
                outer(e.args[0][1]):
            yield "entry", e.args[0][1], e.args[1][0], e.line, here


def outer(t):
    "Something reached from self that is not the manager's own attribute."
    return contains(t, lambda x: x == ("p", "self")) and t[0] != "attr"


def stored(kind, c, name, trail, events):
    "Whether the value removed is kept."
    def value(v):
        v = strip(v)
        cc = strip(c)
        if kind == "attr":
            return v[0] in ("attr", "getattr") and v[1] == cc and (
                K(v[2]) if isinstance(v[2], str) else v[2]) in (
                    strip(name), name) or v[0] == "call" and \
                v[1] == ("b", "getattr") and v[2][:2] == (cc, strip(name))
        return v[0] == "sub" and v[1:3] == (cc, strip(name)) or \
            v[0] == "call" and v[1][0] == "attr" and \
            v[1][2] in ("pop", "get") and v[1][1] == cc and \
            v[2] and v[2][0] == strip(name)

    def held(v):
        return contains(v, lambda x: value(x)) or value(v)
    after = list(events)
    for e in list(trail) + (after if kind == "entry" else []):
        if e.kind == "setitem" and held(e.args[2]) or \
                e.kind == "set" and held(e.args[2]) or \
                e.kind in ("append", "setdefault") and held(e.args[-1]):
            return True
    return False


def put_back(kind, c, name, st):
    "Whether an exit path puts it back: unconditionally, from what was kept."
    if kind == "entry":
        return any(e.kind == "setitem" and strip(e.args[0]) == strip(c) and
                   e.args[1] == name and contains(
                       e.args[2], lambda x: x == ("p", "self"))
                   for e in st.events)

    def restores(events):
        for e in events:
            if e.kind == "set" and contains(e.args[0], looped):
                yield e.args[0], K(e.args[1]), e.args[2]
            elif e.kind == "call" and e.args[0] == ("b", "setattr") and \
                    len(e.args[1]) == 3:
                yield tuple(e.args[1])
            elif e.kind == "loop":
                done = [list(restores(p[1])) for p in e.args[2]]
                if done and all(done) and all(
                        p[0] in ("next", "continue") for p in e.args[2]):
                    yield done[0][0]
    for holder, attr, value in restores(st.events):
        roles = strip(holder), strip(attr), strip(value)
        if roles[0] == roles[2] or roles[0] == roles[1]:
            continue
        if roles[0][0] == "val" and roles[2][0] == "key":
            continue                    # the wrong way round
        if all(contains(r, lambda x: x == ("p", "self")) for r in roles) or \
                is_const(attr):
            return True
    return False


def looped(t):
    return t[0] in ("elem", "key", "val")
