"""C18: typestate of the values a variable-keyed dictionary holds.  Copying one
shares its arrays and its sets of keys, so on every path of every method an
array is written to in place, or handed out, only after it was made private
(copied by a routine that provably copies what is not owned, or stored as a
new array on that path); a key is marked as owned only then; storing something
handed in makes a new array of it, and anything not new loses the mark; taking
over another dictionary's values in bulk clears both marks; a set of keys is
replaced by a new one before it is changed; and the dictionaries' own tables
are never another's.  Copying by any means goes through the constructor."""
import ast

from ..flow import Engine, K, Spec, contains, is_const
from ..model import AnalysisBroken
from .common import judged, shown
from .allrun import everything

TECHNIQUE = "copy-on-write typestate of stored arrays and key sets"
ASSUMPTIONS = [
    "a value without a shape is not an array, and only values of keys with a"
    " shape are written to in place",
    "numpy constructors, arithmetic and .copy() give new arrays"]
BASE = "gpkit.keydict.KeyMap"
TABLES = ("keymap", "_unmapped_keys", "owned")
SELF = ("p", "self")
NEW_FN = {"array", "full", "zeros", "ones", "empty", "copy", "where", "full_like",
          "zeros_like", "ones_like", "empty_like", "fromiter", "concatenate",
          "hstack", "vstack", "arange", "linspace", "stack", "nan_to_num",
          "deepcopy", "float64"}
NEW_BUILTIN = {"set", "dict", "list", "sorted", "frozenset", "defaultdict",
               "float", "int", "len", "tuple"}
NEW_METHOD = {"copy", "astype", "tolist", "flatten", "union", "intersection",
              "difference", "magnitude"}
IN_PLACE = {"fill", "sort", "put", "resize", "itemset", "append", "extend",
            "insert", "update", "__setitem__", "setfield", "partition", "pop",
            "remove", "clear", "add", "discard", "__iadd__", "__imul__"}
SET_WRITES = {"add", "remove", "discard", "update", "pop", "clear",
              "difference_update", "intersection_update", "__ior__",
              "symmetric_difference_update"}
RAW_READS = {"__getitem__", "get", "setdefault"}


class Every(Spec):
    loop_mode = "summary"
    max_states = 3000
    budget = 400000

    def __init__(self, prog):
        Spec.__init__(self, prog)
        self.watched = lambda t: True


def run(chk):
    prog = chk.prog
    classes = [BASE] + [getattr(c, "qual", c) for c in prog.subclasses(BASE)]
    classes = [c for c in classes if ".tests." not in c]
    funcs = []
    for c in sorted(classes):
        for f in prog.classes[c].methods.values():
            funcs.append(f)
    funcs = [f for f in judged(prog, funcs)]
    runs = {}
    for f in sorted(funcs, key=lambda f: f.qual):
        try:
            eng = Engine(prog, Every(prog))
            runs[f] = eng.run(f)
        except AnalysisBroken as e:
            chk.notes.append("undecided: %s (%s)" % (f.qual, e))
    chk.analysed({f.qual for f in runs})
    dicts = [c for c in classes if any(
        b.rpartition(".")[2] == "dict" for q in prog.mro(c)
        for b in prog.external_bases(q))]
    private = privatisers(runs)
    chk.stats["routines that make a value private"] = sorted(
        f.qual for f in private)
    names = {f.name for f in private}
    sharing = sharers(prog, runs, classes)
    seen = set()
    for f, outs in runs.items():
        of_dict = any(prog.find_method(c, f.name) is f for c in dicts) or \
            f.cls is None or f.cls.qual in dicts or f.cls.qual == BASE
        for st, v in list(outs.ret) + [(s, None) for s, _ in outs.exc]:
            for seq, facts in sequences(st):
                p = Path(seq, facts, names)
                if of_dict:
                    writes(chk, f, p, seen)
                    marks(chk, f, p, v is not None, seen)
                    bulk(chk, f, p, v is not None, seen)
                if f in sharing:
                    keysets(chk, f, p, outs, seen)
                tables(chk, f, p, seen)
            if of_dict and v is not None:
                handed_out(chk, f, st, v, names, seen)
    copies(chk, dicts)
    raw(chk)
    for rule in ("private-write", "handed-out-private", "owned-when-private",
                 "stored-new-or-unowned", "key-set-replaced",
                 "copy-constructed"):
        chk.need(rule, 1)


# ---------------------------------------------------------------- terms -----
def raw_read(t):
    "(dictionary, key) when a term is a value as it is stored."
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in RAW_READS and t[2]:
        base = t[1][1]
        if base[0] == "super":
            return base[1], t[2][0]
        if base in (("b", "dict"), ("g", "dict")) and len(t[2]) >= 2:
            return t[2][0], t[2][1]
    if t[0] == "sub" and t[1][0] == "super":
        return t[1][1], t[2]
    if t[0] == "val":
        base = t[1]
        if base == SELF or base[0] == "super":
            return SELF, ("key", base) + t[2:]
    if t[0] == "sub" and t[2] == K(1) and t[1][0] == "elem":
        c = t[1][1]
        if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "items" and (
                c[1][1] == SELF or c[1][1][0] == "super"):
            return SELF, ("sub", t[1], K(0))
    return None


def raw_store(e):
    "(dictionary, key, value) when an event stores a value as it is."
    if e.kind == "call" and e.args[0][0] == "attr" and \
            e.args[0][2] in ("__setitem__", "setdefault"):
        base, args = e.args[0][1], e.args[1]
        if base[0] == "super" and len(args) == 2:
            return base[1], args[0], args[1]
        if base in (("b", "dict"), ("g", "dict")) and len(args) == 3:
            return args
    if e.kind == "setitem" and e.args[0][0] == "super":
        return e.args[0][1], e.args[1], e.args[2]
    return None


def is_new_value(t):
    "Whether nothing else can refer to a value."
    if is_const(t) or t[0] in ("obj", "bin", "neg", "fmt", "cmp", "in", "not",
                               "is", "tuple"):
        return True
    if t[0] == "phi":
        return all(is_new_value(x) for x in t[1])
    if t[0] == "new":
        return t[1].rpartition(".")[2] not in ("MaskedArray",)
    if t[0] == "call":
        f = t[1]
        if dict(t[3]).get("copy") == K(False):
            return False
        if f[0] == "attr":
            return f[2] in NEW_METHOD
        if f[0] == "g":
            mod, _, name = f[1].rpartition(".")
            return name in NEW_FN and mod.split(".")[0] in ("numpy", "copy") \
                or name in NEW_BUILTIN
        if f[0] == "b":
            return f[1] in NEW_BUILTIN
    return False


def sequences(st):
    """The events of one path, with each way through each loop in its place,
    and what is known at its end."""
    def walk(events, facts, before, after):
        for i, e in enumerate(events):
            if e.kind == "loop":
                rest = [x for x in events[i + 1:] if x.kind != "loop"] + after
                for p in e.args[2]:
                    fd = dict(facts)
                    fd.update(dict(p[2]))
                    for s in walk(p[1], fd, before, rest):
                        yield s
            else:
                before = before + [e]
        yield before + after, facts
    yield from walk(list(st.events), dict(st.facts), [], [])


class Path:
    "One way through a function, and what has been made private at each point."

    def __init__(self, seq, facts, names):
        self.seq, self.facts, self.names = seq, facts, names

    def privatised(self, d, k, upto):
        """The last place before `upto` where the value of `k` became private
        and stayed so: -1 when it was from the start, None when it never did."""
        at = None
        if self.facts.get(("in", k, ("attr", d, "owned"))) is True:
            at = -1
        start = any(v is False and t[0] in ("hasattr", "getattr") and
                    raw_read(t[1]) == (d, k) and
                    t[2] in ("copy", K("copy"))
                    for t, v in self.facts.items())
        if start:               # not an array
            return -1
        for i, e in enumerate(self.seq[:upto]):
            got = raw_store(e)
            if got and got[0] == d and got[1] == k:
                at = i if is_new_value(got[2]) or not copies_of(
                    got[2], self.facts) else None
            elif e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][2] in self.names and e.args[0][1] == d and \
                    k in e.args[1] + tuple(v for _, v in e.args[2]):
                at = i
            elif e.kind == "set" and e.args[1] == "owned" and \
                    e.args[0] == d and at == -1:
                at = None
            elif shares(e, d):
                at = None
        return at

    def read_at(self, t, upto):
        "Where a stored value was last taken out before a point."
        at = None
        for i, e in enumerate(self.seq[:upto]):
            if e.kind == "call" and ("call",) + tuple(e.args) == t:
                at = i
            elif e.kind == "getitem" and t[0] == "sub" and \
                    e.args[:2] == t[1:3]:
                at = i
        return at


def copies_of(value, facts):
    "Whether the array stored may be someone else's."
    for t, v in facts.items():
        if v is False and t[0] in ("hasattr", "getattr") and t[1] == value \
                and t[2] in ("copy", K("copy"), "shape", K("shape")):
            return False
    return True


def shares(e, d):
    "Takes over another dictionary's values as they are."
    if e.kind == "call" and e.args[0][0] == "attr" and \
            e.args[0][2] in ("update", "__init__", "__ior__"):
        base = e.args[0][1]
        if base[0] == "super" and base[1] == d and e.args[1]:
            return e.args[1][0]
        if base in (("b", "dict"), ("g", "dict")) and len(e.args[1]) > 1 and \
                e.args[1][0] == d:
            return e.args[1][1]
    return None


# ---------------------------------------------------------------- rules -----
def once(chk, seen, rule, f, construct, ok, why, line):
    key = (rule, f.qual, construct, line, ok)
    if key in seen and ok:
        return
    seen.add(key)
    chk.ob(rule, f, construct, ok, why, line)


def writes(chk, f, p, seen):
    "In-place writes into stored values."
    for i, e in enumerate(p.seq):
        base = None
        if e.kind in ("setitem", "delitem", "aug"):
            base = e.args[0]
        elif e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] in IN_PLACE:
            base = e.args[0][1]
        elif e.kind == "call" and e.args[0][0] == "g" and e.args[0][1] in (
                "numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask") \
                and e.args[1]:
            base = e.args[1][0]
        elif e.kind == "call" and dict(e.args[2]).get("out") is not None:
            base = dict(e.args[2])["out"]
            if base[0] == "tuple" and base[1]:
                base = base[1][0]
        if base is None or not isinstance(base, tuple):
            continue
        for b in alternatives(base):
            stored = b
            while raw_read(stored) is None and stored[0] in ("sub", "attr") \
                    and not (stored[0] == "attr" and stored[1] == SELF):
                stored = stored[1]
            got = raw_read(stored)
            if got is None:
                continue
            d, k = got
            at = p.privatised(d, k, i)
            read = p.read_at(stored, i)
            ok = at is not None and (read is None or read > at or at == -1)
            once(chk, seen, "private-write", f, shown(stored), ok,
                 "this array, perhaps another dictionary's, is written to"
                 + (" before it is copied" if at is None else
                    ", taken out before it was copied"), e.line)


def alternatives(t):
    if t[0] == "phi":
        for x in t[1]:
            yield from alternatives(x)
    elif t[0] == "loopout":
        for x in (t[4],) + tuple(t[5]):
            yield from alternatives(x)
    else:
        yield t


def handed_out(chk, f, st, value, names, seen):
    "Whole stored arrays that a method returns."
    outs = []
    for v in alternatives(value):
        if v[0] == "obj":
            outs += [(x[-2], x) for x in st.objs.get(v[2], ())
                     if x[0] in ("item", "kv")]
        elif v[0] == "tuple":
            outs += [(x, None) for x in v[1]]
        else:
            outs.append((v, None))
    for v, _ in outs:
        for x in alternatives(v):
            got = raw_read(x)
            if got is None or f.name in names:
                continue
            d, k = got
            relevant = [(s, fa) for s, fa in sequences(st)
                        if any(e.kind in ("call", "getitem") and (
                            ("call",) + tuple(e.args) == x or
                            ("sub",) + tuple(e.args[:2]) == x) for e in s)]
            if not relevant:
                relevant = [(list(st.events), st.facts)]
            stores = [(s, fa) for s, fa in relevant if any(
                e.kind in ("setitem", "append") and e.args[-1] == x
                for e in s)]
            for seq, facts in stores or relevant:
                if facts.get(("attr", k, "shape")) is False or any(
                        t[0] == "getattr" and t[1] == k and v2 is False and
                        t[2] in ("shape", K("shape"))
                        for t, v2 in facts.items()):
                    once(chk, seen, "handed-out-private", f, shown(x), True,
                         "", None)
                    continue
                p = Path(seq, facts, names)
                at = p.privatised(d, k, len(seq))
                read = p.read_at(x, len(seq))
                once(chk, seen, "handed-out-private", f, shown(x),
                     at is not None and (read is None or read > at
                                         or at == -1),
                     "the array given out may be another dictionary's",
                     None)


def empty(t, p, upto):
    "A set with nothing in it."
    if t[0] == "obj":
        return not any(e.kind in ("append", "extend") and e.args[0] == t
                       for e in p.seq[:upto])
    return t[0] == "call" and t[1] in (("b", "set"), ("b", "frozenset")) \
        and not t[2]


def marks(chk, f, p, returns, seen):
    "Ownership marks, and what is stored."
    for i, e in enumerate(p.seq):
        if e.kind in ("call", "append") and (
                e.kind == "append" or e.args[0][0] == "attr" and
                e.args[0][2] == "add"):
            base = e.args[0] if e.kind == "append" else e.args[0][1]
            d = owned_of(base, p)
            if d is not None:
                k = e.args[1] if e.kind == "append" else e.args[1][0]
                ok = p.privatised(d, k, len(p.seq)) is not None
                once(chk, seen, "owned-when-private", f, shown(k), ok,
                     "the key is marked as owned while its array may be"
                     " another dictionary's", e.line)
        if e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] in ("update", "__ior__", "union") and \
                owned_of(e.args[0][1], p) is not None:
            once(chk, seen, "owned-when-private", f, "many keys", False,
                 "keys are marked as owned in bulk", e.line)
        if e.kind == "extend" and owned_of(e.args[0], p) is not None:
            once(chk, seen, "owned-when-private", f, "many keys", False,
                 "keys are marked as owned in bulk", e.line)
        if e.kind == "aug" and owned_of(e.args[0], p) is not None and \
                e.args[1] == "|":
            once(chk, seen, "owned-when-private", f, "many keys", False,
                 "keys are marked as owned in bulk", e.line)
        got = raw_store(e)
        if got is None:
            continue
        d, k, v = got
        if is_new_value(v):
            once(chk, seen, "stored-new-or-unowned", f, shown(v), True, "",
                 e.line)
            continue
        # handed in: an array under a key with a shape has to be copied
        plain = p.facts.get(("attr", k, "shape")) is False or \
            not copies_of(v, p.facts)
        once(chk, seen, "stored-new-or-unowned", f, "%s shared" % shown(v),
             plain, "an array handed in is kept as it is: whoever else holds"
             " it goes on writing to it", e.line)
        if returns:
            owned = ("attr", d, "owned")
            ok = p.facts.get(("in", k, owned)) is False or any(
                g.kind == "call" and g.args[0] in (
                    ("attr", owned, "discard"), ("attr", owned, "remove"))
                and g.args[1] == (k,) or
                g.kind == "set" and g.args[:2] == (d, "owned") and
                g.args[2][0] == "obj" for g in p.seq[i + 1:])
            # a private copy made later on is as good
            ok = ok or p.privatised(d, k, len(p.seq)) is not None
            once(chk, seen, "stored-new-or-unowned", f,
                 "%s unowned" % shown(v), ok,
                 "the key stays marked as owned though its value is not its"
                 " own any more", e.line)


def owned_of(base, p):
    "The dictionary whose ownership marks these are."
    if base[0] == "attr" and base[2] == "owned":
        return base[1]
    if base[0] == "obj":
        for e in p.seq:
            if e.kind == "set" and e.args[1] == "owned" and \
                    e.args[2] == base:
                return e.args[0]
    return None


def bulk(chk, f, p, returns, seen):
    if not returns:
        return
    for i, e in enumerate(p.seq):
        other = shares(e, SELF)
        if other is None:
            continue
        plain = any(t[0] == "isinstance" and t[1] == other and v is False
                    for t, v in p.facts.items())
        for d in (SELF, other):
            if d is other and plain:
                continue
            ok = any(g.kind == "set" and g.args[:2] == (d, "owned") and
                     empty(g.args[2], p, len(p.seq)) or
                     g.kind == "call" and g.args[0] == (
                         "attr", ("attr", d, "owned"), "clear")
                     for g in p.seq)
            once(chk, seen, "bulk-unowned", f, "%s, %s" % (
                shown(other), "itself" if d == SELF else "the other"), ok,
                "values are shared with %s, but %s owned" % (
                    shown(other), "stay marked as"), e.line)


def sharers(prog, runs, classes):
    "Methods of classes whose sets of keys may be another's."
    how = []
    for f, outs in runs.items():
        for st, _ in outs.ret:
            for seq, _ in sequences(st):
                for e in seq:
                    if e.kind == "call" and e.args[0] == (
                            "attr", ("attr", SELF, "keymap"), "update") or \
                            e.kind == "set" and e.args[1] == "keymap" and \
                            contains(e.args[2], lambda x: x[0] == "attr" and
                                     x[2] == "keymap"):
                        how.append(f)
    shared = [c for c in classes if any(
        prog.find_method(c, f.name) is f for f in how)]
    return {f for f in runs if any(
        prog.find_method(c, f.name) is f for c in shared) or f.cls is None}


def keyset(t):
    "(key map's dictionary, key) when a term is one of its sets."
    if t[0] == "loopheap" and isinstance(t[1], tuple) and len(t[1]) == 2 and \
            isinstance(t[1][1], tuple) and t[1][1][0] == "k":
        t = ("sub", t[1][0], t[1][1][1])
    if t[0] == "sub" and t[1][0] == "attr" and t[1][2] == "keymap":
        return t[1][1], t[2]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
            "get", "setdefault", "__getitem__") and t[2] and \
            t[1][1][0] == "attr" and t[1][1][2] == "keymap":
        return t[1][1][1], t[2][0]
    return None


def keysets(chk, f, p, outs, seen):
    for i, e in enumerate(p.seq):
        base = None
        if e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] in SET_WRITES:
            base = e.args[0][1]
        elif e.kind in ("append", "extend"):
            base = e.args[0]
        elif e.kind == "aug" and e.args[1] in ("|", "-", "&", "^"):
            base = e.args[0]
        if base is None:
            continue
        if base[0] == "obj":
            if any(g.kind == "setitem" and g.args[2] == base and
                   g.args[0][0] == "attr" and g.args[0][2] == "keymap"
                   for g in p.seq[:i]):
                once(chk, seen, "key-set-replaced", f, "%i" % e.line, True,
                     "", e.line)
            continue
        for b in alternatives(base):
            got = keyset(b)
            if got is None:
                continue
            d, k = got
            ok = replaced(p.seq[:i], d, k) or missing(p.facts, d, k) or \
                noted(p, outs, d, k)
            once(chk, seen, "key-set-replaced", f, shown(b), ok,
                 "a set of keys, perhaps also another dictionary's, is"
                 " changed without having been replaced", e.line)


def replaced(seq, d, k):
    return any(g.kind == "setitem" and g.args[0] == ("attr", d, "keymap") and
               g.args[1] == k and is_new_value(g.args[2]) for g in seq)


def missing(facts, d, k):
    table = ("attr", d, "keymap")
    return facts.get(("in", k, table)) is False or any(
        v is False and t[0] == "in" and t[1] == k and t[2] == table
        for t, v in facts.items())


def noted(p, outs, d, k):
    "The key is in a local record of those replaced."
    for t, v in p.facts.items():
        if not v or t[0] != "in" or t[1] != k or t[2][0] not in (
                "obj", "loopheap", "loopvar"):
            continue
        if t[2][0] == "obj":
            good = True
            found = False
            for st, _ in outs.ret:
                for seq, facts in sequences(st):
                    for i, e in enumerate(seq):
                        if e.kind in ("append", "extend") and \
                                e.args[0] == t[2] or e.kind == "call" and \
                                e.args[0] in (("attr", t[2], "add"),
                                              ("attr", t[2], "update")):
                            found = True
                            x = e.args[1] if e.kind == "append" else \
                                e.args[1][0] if e.kind == "call" else None
                            if e.kind == "extend" or x is None or not (
                                    replaced(seq, d, x) or
                                    missing(facts, d, x)):
                                good = False
            if good and found:
                return True
    return False


def tables(chk, f, p, seen):
    "The tables of a dictionary are its own."
    for e in p.seq:
        if e.kind == "set" and e.args[1] in TABLES:
            v = e.args[2]
            ok = is_new_value(v) or v[0] == "call" and v[1][0] in (
                "b", "g") and v[1][1].rpartition(".")[2] in (
                    "defaultdict", "set", "dict")
            once(chk, seen, "own-tables", f, "%s.%s" % (
                shown(e.args[0]), e.args[1]), ok,
                "the table %s is taken from elsewhere and not copied"
                % e.args[1], e.line)


def privatisers(runs):
    "Methods after which the value of a given key is private."
    out = []
    for f, outs in runs.items():
        ps = f.params()
        if len(ps) != 2 or not outs.ret:
            continue
        d, k = ("p", ps[0]), ("p", ps[1])
        ok, copied = True, False
        for st, _ in outs.ret:
            for seq, facts in sequences(st):
                if Path(seq, facts, set()).privatised(d, k, len(seq)) is None:
                    ok = False
                copied = copied or any(raw_store(e) for e in seq)
        if ok and copied:
            out.append(f)
    return out


def copies(chk, dicts):
    "Copying a dictionary builds another one."
    prog = chk.prog
    for c in dicts:
        cls = prog.classes[c]
        for name in ("copy", "__copy__"):
            g = prog.find_method(c, name)
            if g is None:
                chk.ob("copy-constructed", c, name, False,
                       "%s() of such a dictionary gives one that shares its"
                       " tables or its arrays" % (
                           "copy.copy" if name == "__copy__" else ".copy"),
                       cls.node.lineno)
                continue
            outs = Engine(prog, Every(prog)).run(g)
            bad = None
            for _, v in outs.ret:
                for x in alternatives(v):
                    if not built(x, dicts):
                        bad = x
            chk.ob("copy-constructed", g, name, bad is None and bool(outs.ret),
                   "the copy is %s" % (shown(bad) if bad else "never made"))


def built(x, dicts):
    if x[0] == "new":
        return x[1] in dicts
    if x[0] == "call":
        return x[1] in (("attr", SELF, "__class__"), ("attr", SELF, "copy"),
                        ("attr", SELF, "__copy__")) or \
            x[1] == ("call", ("b", "type"), (SELF,), ()) or \
            x[1][0] == "classof" or \
            x[1][0] == "g" and x[1][1] in dicts
    return False


VALUES = {"substitutions", "constants", "freevariables", "variables"}


def raw(chk):
    "Values taken out by items() or values() are as they are stored."
    n = 0
    for r in everything(chk):
        for e in r.events:
            base = None
            if e.kind in ("setitem", "aug", "delitem"):
                base = e.args[0]
            elif e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][2] in ("fill", "sort", "put", "itemset"):
                base = e.args[0][1]
            if base is None or not isinstance(base, tuple) or \
                    base[0] not in ("val", "elem", "sub"):
                continue
            n += 1
            holder = None
            if base[0] == "val":
                holder = base[1]
            elif base[0] == "elem" and base[1][0] == "call" and \
                    base[1][1][0] == "attr" and base[1][1][2] == "values":
                holder = base[1][1][1]
            if holder is None:
                continue
            bad = holder[0] in ("attr", "getattr") and holder[2] in VALUES or \
                holder[0] == "sub" and is_const(holder[2]) and \
                holder[2][2] in VALUES
            if bad:
                chk.ob("raw-values", r.func, shown(base), False,
                       "a value as %s holds it, perhaps another dictionary's,"
                       " is written to" % shown(holder), e.line)
    chk.ob("raw-values", BASE, "%i writes through items looked at" % n, True)
