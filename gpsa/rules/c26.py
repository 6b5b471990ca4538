"""C26: symbolic execution of the counters.  On every path that enters a model,
the number recorded in the lineage must be the counter's former value plus a
constant and the counter must be left strictly greater, under a key that
depends on nothing but the surrounding models and the name; the counter behind
unnamed variables must return its value plus a constant and be left strictly
greater; and no other function of the package may write, reset or reuse
either.  Variables and models must take their lineage from the environment."""
import ast

from ..flow import K, Engine, contains, flat_events, is_const, strip, subterms
from . import each
from .allrun import everything
from .c06 import written
from .c11 import paths
from .common import shown

TECHNIQUE = "symbolic counters: strictly increasing on every path, sole writer"
ASSUMPTIONS = ["gpkit is used from one thread",
               "models are numbered only through NamedVariables"]
ENV = "gpkit.globals.NamedVariables"
G = ("g", ENV)
SELF = ("p", "self")


def run(chk):
    entering(chk)
    leaving(chk)
    unnamed(chk)
    writers(chk)
    lineages(chk)
    models(chk)
    chk.need("number-increases", 1)
    chk.need("unnamed-increases", 1)


def attr(t, name):
    "NamedVariables.name, by the class or by an instance."
    return t[0] == "attr" and t[2] == name and t[1] in (SELF, G, (
        "classof", SELF), ("p", "cls")) or t == ("g", ENV + "." + name)


def affine(t, base):
    """c if t is base + c for a constant integer c; "repeats" if it can give a
    former number again; None if it cannot be told."""
    if base(t):
        return 0
    if is_const(t):
        return "repeats"
    if t[0] == "bin" and t[1] in ("+", "-"):
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if is_const(y) and isinstance(y[2], (int, float)):
                got = affine(x, base)
                if isinstance(got, (int, float)):
                    if t[1] == "-" and y is t[2]:
                        return "repeats"
                    return got + (y[2] if t[1] == "+" else -y[2])
                return got
    if t[0] == "bin" and t[1] in ("%", "//", "&", "/", ">>") and \
            contains(t, base):
        return "repeats"
    return None


# --- model numbers

def entering(chk):
    f = chk.prog.functions.get(ENV + ".__enter__")
    if f is None:
        chk.notes.append("undecided: no NamedVariables.__enter__")
        return
    bad, keybad, n = [], [], 0
    for st, v in paths(chk, f).ret:
        evs = list(flat_events(st.events))
        key = value = line = None
        lineage = None
        for e in evs:
            if e.kind == "setitem" and attr(e.args[0], "modelnums"):
                key, value, line = e.args[1], e.args[2], e.line
            if e.kind == "set" and e.args[1] == "lineage":
                lineage, lline = e.args[2], e.line
        n += 1
        if key is None:
            if any(e.kind == "call" and any(
                    contains(a, lambda t: attr(t, "modelnums"))
                    for a in e.args[1]) for e in evs):
                chk.notes.append("undecided: the counter is handed on")
                continue
            bad.append((f.node.lineno, "a path enters a model without"
                        " counting it%s" % each.why(st.facts)))
            continue

        def read(t, key=key):
            if t[0] == "sub" and attr(t[1], "modelnums"):
                return strip(t[2]) == strip(key)
            return t[0] == "call" and t[1][0] == "attr" and \
                attr(t[1][1], "modelnums") and \
                t[1][2] in ("get", "setdefault") and \
                t[2][:1] == (key,) and t[2][1:] == (K(0),)
        up = affine(value, read)
        if up == "repeats" or isinstance(up, (int, float)) and up <= 0:
            bad.append((line, "the count is left at %s, so a number is given"
                        " again%s" % (shown(value, 80), each.why(st.facts))))
        elif up is None:
            chk.notes.append("undecided: count %s" % shown(value, 80))
        for t in subterms(key):
            if t[0] in ("p", "attr", "call", "g", "free") and not whole(t):
                keybad.append((line, "numbers are counted separately for"
                               " different %s" % shown(t, 60)))
                break
        if lineage is None:
            bad.append((f.node.lineno, "a path enters a model without"
                        " extending the lineage"))
            continue
        num = last_pair(lineage, lambda t: attr(t, "lineage"), st)
        if num is None:
            chk.notes.append("undecided: lineage %s" % shown(lineage, 80))
            continue
        at = affine(num[1], read)
        if at == "repeats":
            bad.append((lline, "the number in the lineage is %s" %
                        shown(num[1], 80)))
        elif at is None:
            chk.notes.append("undecided: number %s" % shown(num[1], 80))
        if not attr(num[0], "name") and not contains(
                num[0], lambda t: attr(t, "name")):
            bad.append((lline, "the lineage records %s as the model's name"
                        % shown(num[0], 60)))
        got = v[1][0] if v[0] == "tuple" and v[1] else None
        if got is not None and strip(got) != strip(lineage) and \
                not attr(got, "lineage"):
            chk.notes.append("undecided: returns %s" % shown(got, 80))
    if n:
        line, why = bad[0] if bad else (None, None)
        chk.ob("number-increases", f, "instance number", not bad, why, line)
        line, why = keybad[0] if keybad else (None, None)
        chk.ob("number-key", f, "counter's key", not keybad, why, line)
    # new names start from a constant
    cls = chk.prog.classes.get(ENV)
    for s in cls.node.body:
        if isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == "modelnums"
                for t in s.targets):
            v = s.value
            if isinstance(v, ast.Call) and len(v.args) == 1 and \
                    isinstance(v.args[0], ast.Name):
                chk.ob("number-start", f, "modelnums", v.args[0].id == "int",
                       "new names are counted from %s()" % v.args[0].id,
                       s.lineno)


def whole(t):
    "Part of reading the lineage or the name."
    return t == SELF or t == G or attr(t, "lineage") or attr(t, "name") or \
        t[0] == "g" and t[1].startswith(ENV) or \
        t[0] == "call" and t[1] in (("b", "str"), ("b", "tuple")) or \
        t[0] == "classof"


def last_pair(t, base, st):
    "(name, number) added at the end of the former lineage."
    pair = None
    if t[0] == "bin" and t[1] == "+" and base(t[2]) and t[3][0] == "tuple" \
            and len(t[3][1]) == 1:
        pair = t[3][1][0]
    elif t[0] == "tuple" and len(t[1]) == 2 and t[1][0][0] == "*" and \
            base(t[1][0][1]):
        pair = t[1][1]
    if pair is not None and pair[0] == "tuple" and len(pair[1]) == 2:
        return pair[1]
    return None


def leaving(chk):
    f = chk.prog.functions.get(ENV + ".__exit__")
    if f is None:
        return
    bad = []
    for st, _ in paths(chk, f).ret:
        for e in flat_events(st.events):
            w = written(e)
            if w and contains(w[0], lambda t: attr(t, "modelnums")):
                bad.append((e.line, "leaving a model changes the count of its"
                            " name"))
            if e.kind == "set" and e.args[1] == "modelnums":
                bad.append((e.line, "leaving a model replaces the counts"))
    line, why = bad[0] if bad else (None, None)
    chk.ob("number-kept", f, "leaving a model", not bad, why, line)


# --- who may write

def writers(chk):
    names = {"modelnums", "unique_id"}
    bad = {}
    for r in everything(chk):
        f = r.func
        if f.qual in (ENV + ".__enter__", ENV + ".reset_modelnumbers"):
            continue
        hits = bad.setdefault(f.qual, (f, []))[1]
        for e in r.events:
            w = written(e)
            if w is not None:
                on = contains(w[0], lambda t: t[0] == "attr" and t[2] in names
                              or t[0] == "g" and
                              t[1].rpartition(".")[2] in names)
                if on or w[3] in ("set", "delattr") and is_const(w[1]) and \
                        w[1][2] in names:
                    hits.append((e.line, "writes to the counter %s" %
                                 shown(w[0], 60)))
            if e.kind == "call" and (
                    e.args[0][0] == "attr" and
                    e.args[0][2] == "reset_modelnumbers" or
                    e.args[0][0] == "g" and
                    e.args[0][1].endswith(".reset_modelnumbers")):
                hits.append((e.line, "resets the model numbers"))
    n = 0
    for q in sorted(bad):
        f, hits = bad[q]
        n += 1
        from ..flow import is_new
        if not hits or is_new(f) and f.module.name == "gpkit.globals":
            continue
        chk.ob("sole-writer", f, "model numbers and unique names", False,
               hits[0][1], hits[0][0])
    chk.stats["functions that leave the counters alone"] = n
    f = chk.prog.functions.get(ENV + ".__enter__")
    if f is not None:
        chk.ob("sole-writer", f, "model numbers and unique names", True)


# --- unnamed variables

def unnamed(chk):
    prog = chk.prog
    cls = prog.classes.get("gpkit.varkey.VarKey")
    source = None
    for s in cls.node.body if cls else ():
        if isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == "unique_id"
                for t in s.targets):
            source = s.value
    if isinstance(source, ast.Attribute) and isinstance(source.value, ast.Call):
        q = prog.resolve(cls.module, source.value.func) if hasattr(
            prog, "resolve") else None
        if q is None and isinstance(source.value.func, ast.Name):
            q = next((c.qual for c in prog.classes.values() if
                      c.qual.rpartition(".")[2] == source.value.func.id), None)
        g = prog.find_method(q, source.attr) if q else None
        if g is not None:
            counter(chk, g)
        elif "count" not in ast.dump(source):
            chk.notes.append("undecided: source of unique names")
    else:
        f = prog.functions.get("gpkit.varkey.VarKey.unique_id")
        if f is not None:
            counter(chk, f)
        elif source is None or "count" not in ast.dump(source).lower():
            chk.notes.append("undecided: source of unique names")
    names(chk)


def counter(chk, f):
    bad, n = [], 0
    for st, v in paths(chk, f).ret:
        loc = val = line = None
        for e in flat_events(st.events):
            if e.kind == "set" or e.kind == "setitem":
                loc, val, line = (e.args[0], e.args[1]), e.args[2], e.line
            if e.kind == "setglobal":
                loc, val, line = ("global", e.args[0]), e.args[1], e.line
        n += 1
        if v[0] == "call" and v[1] == ("b", "next"):
            continue
        if loc is None:
            bad.append((f.node.lineno, "a path returns %s without counting on"
                        "%s" % (shown(v, 40), each.why(st.facts))))
            continue

        def read(t, loc=loc):
            if t[0] == "attr" and t[1] == loc[0] and t[2] == loc[1]:
                return True
            if loc[0] == "global":
                return t[0] == "g" and t[1].rpartition(".")[2] == \
                    str(loc[1]).rpartition(".")[2]
            return t[0] == "sub" and t[1] == loc[0] and t[2] == loc[1]
        up, at = affine(val, read), affine(v, read)
        if up == "repeats" or isinstance(up, (int, float)) and up == 0:
            bad.append((line, "the counter is left at %s, so it comes to the"
                        " same number again%s" % (shown(val, 60),
                                                  each.why(st.facts))))
        elif at == "repeats":
            bad.append((f.node.lineno, "gives %s, which repeats" %
                        shown(v, 60)))
        elif up is None or at is None:
            chk.notes.append("undecided: counter %s" % f.qual)
    ups = set()
    line, why = bad[0] if bad else (None, None)
    chk.ob("unnamed-increases", f, "unique number", not bad, why, line)
    del ups


def unique(t):
    return t[0] == "call" and (
        t[1][0] == "attr" and t[1][2] == "unique_id" or
        t[1][0] == "g" and t[1][1].endswith(".unique_id") or
        t[1] == ("b", "next"))


def says(t):
    "Does a name show the whole unique number?"
    if unique(t):
        return True
    if t[0] == "bin" and t[1] == "+":
        return says(t[2]) or says(t[3])
    if t[0] == "call" and t[1] in (("b", "str"), ("b", "repr"),
                                   ("b", "format")):
        return any(says(a) for a in t[2])
    if t[0] == "bin" and t[1] == "%" and is_const(t[2]):
        import re
        specs = re.findall(r"%[^%a-zA-Z]*[a-zA-Z]", t[2][2].replace("%%", ""))
        args = t[3][1] if t[3][0] == "tuple" else (t[3],)
        if len(specs) == len(args):
            return any(says(a) and s[-1] in "sdir" and "." not in s
                       for s, a in zip(specs, args))
        return None
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "format":
        return any(says(a) for a in t[2] + tuple(v for _, v in t[3])) or None
    if t[0] in ("fstr", "join", "joined"):
        return contains(t, unique) or None
    if contains(t, unique):
        return None
    return False


def names(chk):
    """The name of a variable that was given none."""
    f = chk.prog.functions.get("gpkit.varkey.VarKey.__init__")
    if f is None:
        return
    bad, n = [], 0
    name = ("p", "name")
    for st, _ in paths(chk, f).ret:
        last = None
        for e in flat_events(st.events):
            if e.kind == "setitem" and e.args[1] == K("name"):
                last = e
        if last is None:
            bad.append((f.node.lineno, "a path gives no name"))
            continue
        v = last.args[2]
        n += 1
        if v == name:
            continue
        if contains(v, lambda t: t == name) and not contains(v, unique):
            if v[0] in ("default", "or"):
                chk.notes.append("undecided: name %s" % shown(v, 60))
            continue
        ok = says(v)
        if ok is None:
            chk.notes.append("undecided: name %s" % shown(v, 60))
        elif not ok:
            bad.append((last.line, "an unnamed variable is called %s" %
                        shown(v, 60)))
    given = any(e.args[2] == name for st, _ in paths(chk, f).ret
                for e in flat_events(st.events)
                if e.kind == "setitem" and e.args[1] == K("name"))
    if not given:
        chk.notes.append("undecided: where a given name goes")
    line, why = bad[0] if bad else (None, None)
    chk.ob("unnamed-unique", f, "name of an unnamed variable", not bad, why,
           line)
    # other places that make up a name
    for r in everything(chk):
        if not r.func.module.name.startswith("gpkit.nomials"):
            continue
        hits = []
        for e in r.events:
            if e.kind == "setitem" and e.args[1] == K("name") and \
                    e.args[0] in (("p", "descr"), ("p", "kwargs")):
                v = e.args[2]
                if is_const(v) or contains(v, unique):
                    ok = says(v)
                    hits.append((e.line, ok, v))
        if hits:
            wrong = [h for h in hits if h[1] is False]
            chk.ob("unnamed-unique", r.func, "name of an unnamed variable",
                   not wrong, wrong and "an unnamed variable is called %s" %
                   shown(wrong[0][2], 60), wrong[0][0] if wrong else None)


# --- lineages come from the environment

def lineages(chk):
    f = chk.prog.functions.get("gpkit.nomials.variables.addmodelstodescr")
    if f is None:
        chk.notes.append("undecided: addmodelstodescr")
        return
    descr = ("p", f.all_params()[0])
    now = lambda t: t == ("attr", G, "lineage") or \
        t == ("g", ENV + ".lineage")
    bad = []
    for st, _ in paths(chk, f).ret:
        last = None
        for e in flat_events(st.events):
            if e.kind == "setitem" and e.args[0] == descr and \
                    e.args[1] == K("lineage"):
                last = e
        outside = any(contains(t, now) and (b is False or t[0] != "attr")
                      for t, b in st.facts.items())
        if last is None:
            if not outside:
                bad.append((f.node.lineno, "a variable made inside a model"
                            " does not get the model's lineage%s" %
                            each.why(st.facts)))
        elif not contains(last.args[2], now):
            bad.append((last.line, "a variable gets the lineage %s" %
                        shown(last.args[2], 60)))
        elif contains(last.args[2], lambda t: t[0] == "sub" and now(t[1])):
            bad.append((last.line, "a variable gets only part of the lineage:"
                        " %s" % shown(last.args[2], 60)))
    line, why = bad[0] if bad else (None, None)
    chk.ob("lineage-given", f, "lineage of a new variable", not bad, why, line)
    # every key made of a description the user gave goes through it
    for q in ("gpkit.nomials.variables.Variable.__init__",
              "gpkit.nomials.variables.ArrayVariable.__new__"):
        r = [r for r in everything(chk) if r.func.qual == q]
        if not r:
            continue
        bad, n = [], 0
        for st in r[0].states:
            added = set()
            for e in flat_events(st.events):
                if e.kind == "call" and e.args[0][0] == "g" and \
                        e.args[0][1] == f.qual and e.args[1]:
                    added.add(e.args[1][0])
                if e.kind == "setitem" and e.args[1] == K("lineage"):
                    added.add(e.args[0])
                if e.kind == "new" and e.args[0][1] == "gpkit.varkey.VarKey":
                    given = [v for k, v in e.args[0][3] if k == "**"]
                    for g in given:
                        n += 1
                        if g not in added:
                            bad.append((e.line, "the key of a variable is made"
                                        " without its lineage"))
        if n:
            line, why = bad[0] if bad else (None, None)
            chk.ob("lineage-given", r[0].func, "lineage of a new variable",
                   not bad, why, line)


def models(chk):
    "A model's setup runs, and its lineage is taken, inside a new environment."
    f = chk.prog.functions.get("gpkit.constraints.model.Model.__init__")
    if f is None:
        return
    bad, n = [], 0
    for r in everything(chk):
        if r.func is not f:
            continue
        for st in r.states:
            inside, entered = [], False
            took = None
            for e in flat_events(st.events):
                if e.kind == "with" and env(e.args[0]):
                    inside.append(e.args[0])
                elif e.kind == "endwith" and env(e.args[0]):
                    inside and inside.pop()
                elif e.kind == "call" and e.args[0] == ("attr", SELF, "setup"):
                    n += 1
                    if not inside:
                        bad.append((e.line, "a model's setup runs outside its"
                                    " own numbered environment"))
                    elif took is None or not contains(
                            took, lambda t: t[0] == "entered" or
                            t == ("attr", G, "lineage")):
                        bad.append((e.line, "a model does not take the lineage"
                                    " of its own environment"))
                elif e.kind == "set" and e.args[:2] == (SELF, "lineage"):
                    took = e.args[2]
                elif e.kind == "set" and e.args[0] == SELF and \
                        e.args[1] == "lineage":
                    took = e.args[2]
    if n:
        line, why = bad[0] if bad else (None, None)
        chk.ob("model-numbered", f, "setup of a model", not bad, why, line)
    else:
        chk.notes.append("undecided: where setup is called")


def env(t):
    return t[0] == "new" and t[1] == ENV
