"""C19: typestate of entries in the tables that create entries when they are
read.  On every path, an entry read from such a table must be known to exist
(it was tested, comes from the table itself, or was read successfully before),
be written by the same code that reads it, or be removed again before every
exit on which it can be blank.  The functions that look something up may not
write to what they look in, and every path on which the thing looked up is
known to be missing must end in an exception where a value is due."""
import ast

from ..flow import K, contains, flat_events, is_const, strip, subterms
from . import each
from .allrun import everything
from .c06 import MUTATORS, written
from .c11 import paths
from .common import shown
from .quant import comp_parts

TECHNIQUE = "typestate of auto-created entries; lookups free of writes"
ASSUMPTIONS = ["every variable held in a key map is mapped to itself"]
SELF = ("p", "self")
GROWS = {"add", "append", "update", "extend", "insert", "setdefault"}
# reading functions, by what they look in
KD = "gpkit.keydict."
READERS = [KD + "KeyMap.__contains__", KD + "KeyMap.parse_and_index",
           KD + "KeyDict.__getitem__", KD + "KeyDict.get",
           KD + "KeyDict.__call__", KD + "KeyDict._copyonwrite",
           KD + "KeySet.__getitem__",
           "gpkit.constraints.set.ConstraintSet.__getitem__",
           "gpkit.constraints.set.ConstraintSet._choosevar",
           "gpkit.constraints.set.ConstraintSet.variables_byname",
           "gpkit.solution_array.SolutionArray.__call__",
           "gpkit.solution_array.SolutionArray.subinto",
           "gpkit.solution_array.SolutionArray._parse_showvars",
           "gpkit.solution_array.SolutionArray.varnames",
           "gpkit.solution_array.SolutionArray.name_collision_varkeys",
           "gpkit.solution_array.SolutionArray.almost_equal",
           "gpkit.solution_array.SolutionArray.__len__",
           "gpkit.small_classes.DictOfLists.atindex",
           "gpkit.varkey.VarKey.__getattr__"]
PLAIN = ["gpkit.keydict.KeyDict", "gpkit.keydict.KeySet",
         "gpkit.small_classes.DictOfLists", "gpkit.small_classes.HashVector",
         "gpkit.solution_array.SolutionArray",
         "gpkit.constraints.set.ConstraintSet"]


def run(chk):
    tables = creating(chk.prog)
    chk.stats["tables that create entries"] = sorted(tables)
    entries(chk, tables)
    readers(chk)
    required(chk)
    deleted(chk)
    pending(chk)
    plain(chk)
    chk.need("entry-known", 3)
    chk.need("lookup-writes", 8)
    chk.need("missing-raises", 3)


def creating(prog):
    "Attributes that hold a defaultdict of containers, and other names for them."
    out = set()
    for f in prog.all_functions():
        if ".tests." in f.qual or f.module.name.startswith(
                ("gpkit.globals", "gpkit.interactive", "gpkit.tests")):
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                pairs = [(t, n.value)]
                if isinstance(t, ast.Tuple) and isinstance(
                        n.value, ast.Tuple) and len(t.elts) == \
                        len(n.value.elts):
                    pairs = list(zip(t.elts, n.value.elts))
                for a, v in pairs:
                    if isinstance(a, ast.Attribute) and \
                            isinstance(v, ast.Call) and "defaultdict" in \
                            ast.dump(v.func):
                        out.add(a.attr)
    out.discard("varkeys")      # elsewhere a KeySet
    return out


# --- reads of creating tables

def table(t, names):
    if t[0] == "attr" and t[2] in names:
        return True
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] == "copy" and \
        not t[2] and table(t[1][1], names)


def owner(t):
    while t[0] == "call":
        t = t[1][1]
    return t[1]


def entries(chk, names):
    hits = {}
    for r in everything(chk):
        if any(e.kind == "getitem" and table(e.args[0], names)
               for e in r.events):
            hits[r.func.qual] = r
    from .common import judged
    for f in sorted(judged(chk.prog, [r.func for r in hits.values()]),
                    key=lambda f: f.qual):
        r = hits.get(f.qual)
        if r is None:
            r = next((x for x in everything(chk) if x.func is f), None)
            if r is None:
                continue
        bad, n = {}, 0
        if r.whole:
            outs = paths(chk, f)
            ends = [s for s, _ in outs.ret] + [s for s, _ in outs.exc]
        else:
            ends = r.states
        for st in ends:
            for e, why in unsettled(st, names):
                bad.setdefault((e.line, shown(e.args[0])), why)
            n += 1
        line, why = min(((l, w) for (l, _), w in bad.items()),
                        default=(None, None), key=lambda x: x[0])
        chk.ob("entry-known", f, "entries read", not bad, why, line)


def unsettled(st, names):
    "Reads on a path after which a blank entry can be left behind."
    out = []

    def walk(events, facts, after):
        events = list(events)
        for i, e in enumerate(events):
            rest = [x for x in flat_events(events[i + 1:])] + list(after)
            if e.kind == "loop":
                for p in e.args[2]:
                    fd = dict(facts)
                    fd.update(dict(p[2]))
                    walk(p[1], fd, rest)
                continue
            if e.kind != "getitem" or not table(e.args[0], names):
                continue
            b, k = e.args
            if known(st, b, k, facts, events[:i], names):
                continue
            if any(grown(x, b, k) for x in rest):
                continue        # written to: not a lookup
            if any(removed(x, b, k) for x in rest):
                continue
            out.append((e, "%s[%s] is read where the entry may not exist, and"
                        " stays behind blank%s" % (shown(b, 50), shown(k, 50),
                                                   each.why(facts))))
    walk(st.events, dict(st.facts), ())
    return out


def grown(e, b, k):
    if e.kind in ("append", "extend") and entry(e.args[0], b, k):
        return True
    if e.kind == "call" and e.args[0][0] == "attr" and \
            entry(e.args[0][1], b, k) and e.args[0][2] in GROWS:
        return True
    return e.kind == "setitem" and (e.args[0] == b and e.args[1] == k)


def removed(e, b, k):
    if e.kind == "delitem":
        return e.args[0] == b and e.args[1] == k
    return e.kind == "call" and e.args[0] == ("attr", b, "pop") and \
        e.args[1][:1] == (k,)


def entry(t, b, k):
    "A term for the entry of a table, read in whichever way."
    if t == ("sub", b, k) or t[0] == "loopheap" and t[1] == (b, ("k", k)):
        return True
    return t[0] == "call" and t[1] == ("attr", b, "get") and t[2][:1] == (k,)


def known(st, b, k, facts, before, names):
    it = ("sub", b, k)
    for t, v in facts.items():
        while t[0] == "not":
            t, v = t[1], not v
        if entry(t, b, k) and v:
            return True         # it held something
        if t[0] == "in" and v and entry(t[2], b, k):
            return True
        if t[0] == "cmp" and t[1] == "==" and any(
                x[0] == "call" and x[1] == ("b", "len") and
                entry(x[2][0], b, k) and is_const(y) and
                bool(y[2]) == v for x, y in ((t[2], t[3]), (t[3], t[2]))):
            return True
        if t[0] == "in" and v and t[1] == k and inside(t[2], b):
            return True
        if v and t[0] == "cmp" and t[1] in ("<", "<=") and \
                t[3] == ("call", ("b", "len"), (it,), ()) and \
                is_const(t[2]) and (t[2][2] > 0 or t[1] == "<"):
            return True
    for e in before:
        if e.kind == "setitem" and e.args[0] == b and e.args[1] == k:
            return True
        if e.kind == "getitem" and inside(e.args[0], b) and \
                e.args[0] != b and contains(k, lambda x, y=e.args[1]: x == y):
            return True         # read successfully under its other name
    return comes_from(st, k, b, names)


def inside(t, b):
    "A term that holds just the entries of the table's owner."
    if t == b or t == owner(b):
        return True
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
            "keys", "copy", "items", "values"):
        return inside(t[1][1], b)
    if t[0] == "call" and t[1][0] == "b" and t[1][1] in (
            "list", "tuple", "set", "frozenset", "sorted", "dict") and t[2]:
        return inside(t[2][0], b)
    if t[0] == "attr" and t[2] == "keymap" and t[1] == owner(b):
        return True
    return False


def comes_from(st, k, b, names, depth=0):
    """A key that is an element of the table, of one of its entries, or of a
    collection of such elements."""
    if depth > 6:
        return False
    if k[0] in ("elem", "key"):
        return holds(st, k[1], b, names, depth + 1)
    if k[0] == "sub" and k[2] == K(0) and k[1][0] == "elem":
        return holds(st, k[1][1], b, names, depth + 1)
    return False


def holds(st, c, b, names, depth=0):
    if depth > 6:
        return False
    if inside(c, b):
        return True
    if c[0] == "sub" and c[1] == b:
        return True             # the keys of an entry
    if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "get" and \
            c[1][1] == b:
        return True
    if c[0] == "call" and c[1][0] == "b" and c[2] and c[1][1] in (
            "list", "tuple", "set", "frozenset", "sorted", "iter",
            "reversed"):
        return holds(st, c[2][0], b, names, depth + 1)
    if c[0] == "call" and c[1] == ("attr", owner(b), "_parse_showvars"):
        return True
    if c[0] == "call" and c[1][0] == "attr" and \
            c[1][2] == "_parse_showvars" and contains(
                b, lambda t: t == ("sub", c[1][1], K("variables"))):
        return True             # keys taken from the same key map
    if c[0] == "obj":
        ents = st.objs.get(c[2], ())
        return bool(ents) and all(
            e[0] in ("item", "splat") and (
                comes_from(st, e[1], b, names, depth + 1)
                if e[0] == "item" else
                holds(st, e[1], b, names, depth + 1)) for e in ents)
    if c[0] in ("phi", "or") and len(c) > 1:
        return all(holds(st, x, b, names, depth + 1) for x in c[1:]
                   if isinstance(x, tuple))
    return False


# --- lookups write nothing

def readers(chk):
    prog = chk.prog
    runs = {r.func.qual: r for r in everything(chk)}
    for q in READERS:
        r = runs.get(q)
        if r is None:
            continue
        bad = []
        for st in r.states:
            for e, facts, before in with_facts(st):
                if e.kind == "call" and e.args[0][0] == "attr" and \
                        e.args[0][2] in ("__setitem__", "setdefault") and \
                        e.args[0][1] in (("b", "dict"), ("b", "set")) and \
                        e.args[1][:1] == (SELF,):
                    if not present(e.args[1][1], SELF, facts, before):
                        bad.append((e.line, "looking up stores an entry"))
                    continue
                w = written(e)
                if w is None:
                    continue
                base = w[0]
                if not (base == SELF and w[3] not in ("set", "delattr") or
                        base[0] == "super" or base[0] == "attr" and
                        base[1] == SELF and base[2] in (
                            "keymap", "vks", "varkeys", "substitutions",
                            "descr") or
                        base[0] == "sub" and base[1] == ("attr", SELF,
                                                         "keymap") or
                        base[0] == "sub" and base[1] == SELF and
                        is_const(base[2]) and w[3] != "set"):
                    continue
                if w[3] in ("delitem", "pop", "remove", "discard"):
                    continue
                key = w[1]
                if key is not None and present(key, base, facts, before):
                    continue
                bad.append((e.line, "looking up writes to %s%s" % (
                    shown(base, 50), each.why(facts))))
        bad = sorted(set(bad))
        line, why = bad[0] if bad else (None, None)
        chk.ob("lookup-writes", r.func, "writes of a lookup", not bad, why,
               line)


def with_facts(st):
    def walk(events, facts, before):
        before = list(before)
        for e in events:
            if e.kind == "loop":
                for p in e.args[2]:
                    fd = dict(facts)
                    fd.update(dict(p[2]))
                    yield from walk(p[1], fd, before)
            else:
                yield e, facts, before
                before.append(e)
    yield from walk(st.events, dict(st.facts), [])


def present(key, base, facts, before):
    "The entry was there already when it is written."
    own = base if base[0] not in ("super",) else base[1]
    for t, v in facts.items():
        if t[0] == "in" and v and t[1] == key and (
                t[2] == own or t[2][0] == "super" or
                t[2] == ("attr", own, "keymap")):
            return True
    for e in before:
        if e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] == "__getitem__":
            if e.args[1][-1:] == (key,):
                return True
        if e.kind == "getitem" and e.args[1] == key and (
                e.args[0] == own):
            return True
    return False


# --- a missing thing raises

def lookups_of(t, names=("keymap",)):
    "What a fact's term says was looked up in a key map."
    if t[0] == "sub" and t[1][0] == "attr" and t[1][2] in names:
        return True
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and \
            t[1][1][0] == "attr" and t[1][1][2] in names:
        return True
    return False


def found_fact(t, v):
    """True/False: a fact says that the lookup found something or not."""
    while t[0] == "not":
        t, v = t[1], not v
    if lookups_of(t):
        return v
    if t[0] == "in" and t[2][0] == "attr" and t[2][2] in (
            "keymap", "varkeys"):
        return v
    if t[0] == "in" and t[2] == SELF:
        return v
    if t[0] == "is" and lookups_of(t[1]) and t[2] == K(None):
        return not v
    if t[0] == "cmp" and t[1] == "==" and K(0) in t[2:] and any(
            x[0] == "call" and x[1] == ("b", "len") and lookups_of(x[2][0])
            for x in t[2:]):
        return not v
    return None


REQUIRED = [(KD + "KeyDict.__getitem__", True),
            (KD + "KeyDict.__delitem__", False),
            (KD + "KeyMap.parse_and_index", False)]


def required(chk):
    prog = chk.prog
    for q, always in REQUIRED:
        f = prog.functions.get(q)
        if f is None:
            continue
        outs = paths(chk, f)
        bad = []
        for st, v in outs.ret:
            says = [found_fact(t, b) for t, b in st.facts.items()]
            if False in says and True not in says:
                bad.append((f.node.lineno, "returns %s where nothing was"
                            " found%s" % (shown(v, 50), each.why(st.facts))))
            elif always and True not in says:
                bad.append((f.node.lineno, "returns %s without having found"
                            " anything%s" % (shown(v, 50),
                                             each.why(st.facts))))
            elif q.endswith("__delitem__"):
                named = any(t[0] == "hasattr" and t[2] in ("key", K("key"))
                            and not b for t, b in st.facts.items())
                if named and True not in says:
                    bad.append((f.node.lineno, "deletes a name without having"
                                " found it%s" % each.why(st.facts)))
        for st, e in outs.exc:
            says = [found_fact(t, b) for t, b in st.facts.items()]
            if False in says and True not in says and \
                    e.cls != "KeyError" and e.origin != "implicit":
                bad.append((e.line, "raises %s where nothing was found" %
                            e.cls))
        if q.endswith("parse_and_index"):
            raised = any(e.cls == "KeyError" for _, e in outs.exc)
            if not raised:
                bad.append((f.node.lineno, "a name that is not in the model is"
                            " not refused"))
        line, why = bad[0] if bad else (None, None)
        chk.ob("missing-raises", f, "what is missing", not bad, why, line)
    f = prog.functions.get("gpkit.constraints.set.ConstraintSet._choosevar")
    if f is not None:
        found = ("p", f.all_params()[-1])
        bad = [(f.node.lineno, "returns a variable where none was found%s" %
                each.why(st.facts))
               for st, v in paths(chk, f).ret
               if not any(t == found and b or t == ("not", found) and not b or
                          contains(t, lambda x: x[0] == "call" and
                                   x[1] == ("b", "len") and x[2] == (found,))
                          for t, b in st.facts.items())]
        chk.ob("missing-raises", f, "what is missing", not bad,
               bad[0][1] if bad else None, bad[0][0] if bad else None)
    f = prog.functions.get(KD + "KeyDict.get")
    if f is not None:
        key, bad = ("p", "key"), []
        for st, v in paths(chk, f).ret:
            if v == ("sub", SELF, key) or v[0] == "call" and \
                    v[1] in (("attr", SELF, "__getitem__"),):
                continue
            absent = any(t == ("in", key, SELF) and not b
                         for t, b in st.facts.items())
            alt = contains(v, lambda t: t[0] == "p" and t != SELF and t != key)
            if not alt or not absent:
                bad.append((f.node.lineno, "gives %s%s" % (
                    shown(v, 50), each.why(st.facts))))
        chk.ob("missing-raises", f, "what is missing", not bad,
               bad[0][1] if bad else None, bad[0][0] if bad else None)
    f = prog.functions.get("gpkit.solution_array.SolutionArray.subinto")
    if f is not None:
        posy, bad = ("p", f.all_params()[1]), []
        for st, v in paths(chk, f).ret:
            hit = any(t[0] == "in" and t[1] == posy and b or
                      t[0] == "hasattr" and t[1] == posy and b
                      for t, b in st.facts.items())
            if not hit:
                bad.append((f.node.lineno, "gives %s for a name that is not in"
                            " the solution%s" % (shown(v, 50),
                                                 each.why(st.facts))))
        chk.ob("missing-raises", f, "what is missing", not bad,
               bad[0][1] if bad else None, bad[0][0] if bad else None)


# --- what was deleted stays deleted

def deleted(chk):
    f = chk.prog.functions.get(KD + "KeyDict.__delitem__")
    if f is None:
        return
    bad, n = [], 0
    for st, _ in paths(chk, f).ret:
        gone = None
        evs = list(st.events)
        for e in flat_events(evs):
            if e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][2] in ("__delitem__", "pop") and (
                        e.args[0][1][0] == "super" or
                        e.args[0][1] == ("b", "dict")):
                gone = (e.args[1][-1] if e.args[0][2] == "__delitem__" else
                        e.args[1][0]), e.line
        if gone is None:
            continue
        n += 1
        key, line = gone
        pend = ("attr", SELF, "_unmapped_keys")
        if not any(e.kind == "call" and e.args[0][0] == "attr" and
                   e.args[0][1] == pend and e.args[0][2] in (
                       "discard", "remove") and e.args[1] == (key,) or
                   e.kind == "call" and
                   e.args[0] == ("attr", SELF, "update_keymap")
                   for e in flat_events(evs)):
            bad.append((line, "a deleted key is still waiting to be mapped,"
                        " and the next lookup by name brings it back"))
        keymap = ("attr", SELF, "keymap")
        loops = [l for l in each.all_loops(evs)
                 if l.args[0][0] != "comp" and any(
                     x.kind in ("setitem", "delitem") and x.args[0] == keymap
                     for p in l.args[2] for x in p[1])]
        if not loops:
            bad.append((line, "a deleted key stays in the key map"))
            continue
        for l in loops:
            for p in l.args[2]:
                if p[0] == "raise":
                    continue
                fd = dict(p[2])
                here = [t for t, v in fd.items() if t[0] == "in" and
                        t[1] == key and v and t[2] != l.args[0]
                        and t not in st.facts
                        and t[2][0] in ("call", "loopheap", "sub")]
                out = any(x.kind in ("delitem",) and x.args[0] == keymap or
                          x.kind == "call" and x.args[0][0] == "attr" and
                          x.args[0][2] in ("remove", "discard") and
                          x.args[1] == (key,) or
                          x.kind == "call" and x.args[0] == (
                              "attr", keymap, "pop")
                          for x in flat_events(p[1])) or any(
                    x.kind == "setitem" and x.args[0] == keymap and
                    without(st, x.args[2], key) for x in flat_events(p[1]))
                if here and not out:
                    bad.append((l.line, "a name keeps standing for the deleted"
                                " key%s" % each.why(fd)))
                if p[0] in ("break", "return"):
                    bad.append((l.line, "other names keep standing for the"
                                " deleted key%s" % each.why(fd)))
    if n:
        line, why = bad[0] if bad else (None, None)
        chk.ob("deleted-stays", f, "deleting a key", not bad, why, line)


def without(st, v, key):
    "A collection built from the others, leaving the key out."
    if v[0] == "bin" and v[1] == "-":
        return contains(v[3], lambda t: t == key) or v[3][0] == "obj"
    if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "difference":
        return True
    if v[0] != "obj":
        return False
    got = comp_parts(st, v)
    return bool(got and got[1] and all(
        any(contains(t, lambda x: x == key) for t in fd) for fd in got[1]))


def pending(chk):
    """The keys waiting to be mapped are put into the map under their own
    names, and nothing else is."""
    f = chk.prog.functions.get(KD + "KeyMap.update_keymap")
    if f is None:
        return
    pend, keymap = ("attr", SELF, "_unmapped_keys"), ("attr", SELF, "keymap")
    bad = []
    for st, _ in paths(chk, f).ret:
        for e, facts, before in with_facts(st):
            put = None
            if e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][2] == "add" and contains(
                        e.args[0][1], lambda t: t == keymap):
                put = e.args[1][0]
            if put is not None and not (
                    put[0] == "elem" and contains(put, lambda t: t == pend)):
                bad.append((e.line, "%s is put into the key map" %
                            shown(put, 50)))
        done = any(e.kind == "set" and e.args[:2] == (SELF, "_unmapped_keys")
                   or e.kind == "call" and e.args[0] == ("attr", pend, "clear")
                   for e in flat_events(st.events))
        if not done:
            bad.append((f.node.lineno, "mapped keys stay among those waiting,"
                        " so that deleted ones are mapped again"))
    line, why = bad[0] if bad else (None, None)
    chk.ob("deleted-stays", f, "mapping names", not bad, why, line)


def plain(chk):
    "The user's containers do not create entries by themselves."
    for q in PLAIN:
        cls = chk.prog.classes.get(q)
        if cls is None:
            continue
        own = chk.prog.find_method(q, "__missing__")
        auto = any("defaultdict" in ast.dump(b) for b in cls.node.bases)
        chk.ob("no-default", q, "class", own is None and
            not auto, "creates the entries it is asked for")
