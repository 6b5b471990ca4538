"""C16: hashes and identity.  Exponent vectors cache their hash.  Every path of
every function that changes a vector is followed: a vector made there and not
yet hashed may change freely; any other must have its cached hash cleared, or
updated by exactly the hashes of the entries taken out and put in; it may not be
changed while it is a key of a mapping or a member of a set; the cached value
is only copied to an unchanged copy and never saved to another process.  The
hash itself must be the same for every order of the entries.  A variable's
identity string must hold name, lineage with its numbers, index and units and
nothing else, its hash must depend on nothing that equality ignores, and nothing
rewrites those descriptions of an existing variable."""
import ast

from ..flow import Engine, K, contains, is_const, is_new, show, strip, subterms
from ..model import AnalysisBroken
from .allrun import everything
from .c18 import Every

TECHNIQUE = "typestate of cached hashes with exact update accounting; field dependences of hash and equality"
ASSUMPTIONS = [
    "hash values of the entries themselves do not change",
    "vectors reach a function only as the arguments its callers in the"
    " package pass"]
HV = "gpkit.small_classes.HashVector"
NM = "gpkit.nomials.map.NomialMap"
VK = "gpkit.varkey.VarKey"
ND = "gpkit.nomials.data.NomialData"
ME = ("p", "self")
EMPTY = "EMPTY_HV"
CACHE = "hashvalue"
DROPS = ("pop", "popitem", "clear", "update", "setdefault", "__setitem__",
         "__delitem__")
MUTATORS = DROPS + ("__init__", "__setstate__", "__ior__", "__iadd__",
                    "__isub__", "__imul__", "__itruediv__", "__ipow__")
IDENTITY = {"name", "lineage", "idx", "unitrepr", "units"}


def run(chk):
    everyone = {r.func.qual: r for r in everything(chk)}
    v = Vectors(chk, everyone)
    v.judge()
    hashes(chk)
    identity(chk)
    rewritten(chk, everyone)
    pickled(chk)
    chk.need("hash-maintained", 8)
    chk.need("identity", 3)


# ---------------------------------------------------------------- vectors ----
class Vectors:
    def __init__(self, chk, everyone):
        self.chk, self.prog, self.all = chk, chk.prog, everyone
        self.params = {}            # (function, parameter) -> kind
        self.ducks = set()          # (function, term): changed, and a key
        self.keeps = {}
        for c in (HV, NM):
            f = self.prog.find_method(c, "copy")
            self.keeps[c] = f is None or self.copies_hash(f)
        for _ in range(4):
            before = dict(self.params)
            self.spread()
            if self.params == before:
                break
        self.find_ducks()
        self.dirty = {}             # (function, parameter) changed unhashed

    def copies_hash(self, f):
        r = self.all.get(f.qual)
        return r is None or any(
            e.kind == "set" and e.args[1] == CACHE and e.args[2] != K(None)
            for e in r.events) or not r.ret or not all(
                strip(v)[0] in ("new", "call") and not (
                    strip(v)[0] == "call" and strip(v)[1][0] == "attr" and
                    strip(v)[1][1][0] == "super") for _, v in r.ret)

    def family(self, c):
        if c in self.prog.classes:
            if self.prog.is_subclass(c, NM):
                return NM
            if self.prog.is_subclass(c, HV):
                return HV
        return None

    def kind(self, t, func, depth=0):
        "(class of vector, whether made here and never hashed)"
        t = strip(t)
        if depth > 8:
            return None
        if (func.qual, t) in self.ducks:
            return (HV, False)
        if t[0] == "new":
            k = self.family(t[1])
            return k and (k, True)
        if t == ME:
            k = func.cls is not None and self.family(func.cls.qual)
            return (k, False) if k else None
        if t[0] == "p":
            k = self.params.get((func.qual, t[1]))
            return k and (k, False)
        if t[0] == "g":
            return (HV, False) if t[1].endswith("." + EMPTY) else None
        if t[0] in ("elem", "key"):
            src = t[1]
            if src[0] == "call" and src[1][0] == "attr" and src[1][2] in (
                    "items", "keys"):
                src = src[1][1]
            if src[0] == "call" and src[1][0] == "b" and src[1][1] in (
                    "list", "tuple", "sorted", "enumerate") and src[2]:
                src = src[2][0]
            k = self.kind(src, func, depth + 1)
            return (HV, False) if k and k[0] == NM else None
        if t[0] == "attr":
            if t[2] == "hmap":
                return (NM, False)
            if t[2] == "exp":
                return (HV, False)
            return None
        if t[0] == "sub" and t[1][0] == "attr" and t[1][2] == "expmap":
            return (HV, False)
        if t[0] == "call":
            f = t[1]
            if f[0] == "attr" and f[2] == "copy":
                k = self.kind(f[1], func, depth + 1)
                return k and (k[0], not self.keeps[k[0]] or k[1])
            if f[0] == "attr" and f[2] == "__class__" or f[0] == "classof" \
                    or f[0] == "call" and f[1] == ("b", "type"):
                base = f[1] if f[0] != "call" else f[2][0]
                k = self.kind(base, func, depth + 1)
                return k and (k[0], True)
            if f[0] == "attr" and f[2] in ("sub", "diff", "to"):
                k = self.kind(f[1], func, depth + 1)
                return k and k[0] == NM and (NM, False) or None
            return None
        if t[0] in ("bin", "neg"):
            for x in t[2:4] if t[0] == "bin" else t[1:2]:
                k = self.kind(x, func, depth + 1)
                if k:
                    return (k[0], True)
            return None
        if t[0] in ("loopout", "loopvar", "phi"):
            parts = t[1] if t[0] == "phi" else \
                [x for x in t[1:] if isinstance(x, tuple) and x and
                 isinstance(x[0], str)] + [
                     y for x in t[1:] if isinstance(x, tuple) and x and
                     isinstance(x[0], tuple) for y in x]
            ks = [self.kind(x, func, depth + 1) for x in parts
                  if strip(x)[0] != "loopvar"]
            ks = [k for k in ks if k]
            if ks and len({k[0] for k in ks}) == 1:
                return ks[0][0], all(k[1] for k in ks)
        return None

    def spread(self):
        "Kinds of the parameters, from the calls in the package."
        for q, r in self.all.items():
            for e in r.events:
                if e.kind != "call":
                    continue
                g = self.callee(e.args[0], r.func)
                if g is None:
                    continue
                for p, a in self.bound(g, e):
                    k = self.kind(a, r.func)
                    if k:
                        self.params.setdefault((g.qual, p), k[0])

    def find_ducks(self):
        """Only a vector can both have its entries set and be a key: whatever
        is used in both ways is one, wherever it came from."""
        found = set()
        for q, r in self.all.items():
            changed, keyed = set(), set()
            for e in r.events:
                if e.kind == "delitem":
                    changed.add(strip(e.args[0]))
                elif e.kind == "set" and e.args[1] == CACHE:
                    found.add((q, strip(e.args[0])))
                elif e.kind == "call" and e.args[0][0] == "attr" and \
                        e.args[0][2] == "pop" and len(e.args[1]) == 1:
                    changed.add(strip(e.args[0][1]))
                for v in keys_in(e):
                    keyed.add(v)
            found |= {(q, t) for t in changed & keyed}
        self.ducks = {
            (q, t) for q, t in found
            if t[0] not in ("obj", "new", "const", "call", "g") and
            t != ME and self.kind(t, self.all[q].func) is None}

    def callee(self, f, func):
        if f[0] == "g" and f[1] in self.prog.functions:
            return self.prog.functions[f[1]]
        if f[0] == "attr":
            base = f[1][1] if f[1][0] == "super" else f[1]
            k = self.kind(base, func)
            if k:
                return self.prog.find_method(k[0], f[2])
        return None

    def bound(self, g, e):
        names = [p for p in g.all_params()]
        if e.args[0][0] == "attr" and names[:1] == ["self"]:
            base = e.args[0][1]
            yield "self", base[1] if base[0] == "super" else base
            names = names[1:]
        for p, a in zip(names, e.args[1]):
            yield p, a
        for k, a in e.args[2]:
            if k in names:
                yield k, a

    # ------------------------------------------------------------ judging ----
    def judge(self):
        todo = []
        for q, r in sorted(self.all.items()):
            if is_new(r.func) or ".tests." in q:
                continue
            if any(self.mutated(e, r.func) is not None for e in r.events) or \
                    any(e.kind == "set" and e.args[1] == CACHE
                        for e in r.events):
                todo.append(r.func)
        self.runs = {}
        for f in todo:
            try:
                eng = Engine(self.prog, Every(self.prog))
                outs = eng.run(f)
                self.runs[f] = [st for st, _ in list(outs.ret)]
            except AnalysisBroken as e:
                self.chk.notes.append("undecided: %s (%s)" % (f.qual, e))
                continue
            self.chk.analysed([f.qual])
        for f, states in self.runs.items():
            self.function(f, states)
        self.callers()
        self.lent()

    def mutated(self, e, func):
        "The vector whose entries an event changes."
        if e.kind in ("setitem", "delitem", "setdefault"):
            v = e.args[0]
        elif e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] in DROPS:
            v = e.args[0][1]
            if v[0] == "super":
                v = v[1]
        else:
            return None
        v = strip(v)
        return v if self.kind(v, func) else None

    def function(self, f, states):
        results = {}
        homes = self.homes(f, states)
        for st in states:
            for scope, facts, after in scopes(st.events, st.facts, []):
                seen = []
                for e in scope:
                    v = self.mutated(e, f)
                    if v is not None and v not in seen:
                        seen.append(v)
                for v in seen:
                    bad = self.vector(f, st, scope, facts, after, v)
                    key = ("hash-maintained", show(v)[:80])
                    line = next(e.line for e in scope
                                if self.mutated(e, f) == v)
                    results.setdefault(key, (bad, line))
                    if bad:
                        results[key] = (bad, line)
                    bad = self.as_key(f, scope, facts, v, homes, st)
                    key = ("not-changed-as-key", show(v)[:80])
                    results.setdefault(key, (bad, line))
                    if bad:
                        results[key] = (bad, line)
                for i, e in enumerate(scope):
                    if e.kind == "set" and e.args[1] == CACHE and \
                            f.name != "__init__":
                        bad = self.assigned(f, e, scope, i)
                        key = ("hash-assigned", show(strip(e.args[0]))[:80])
                        results.setdefault(key, (bad, e.line))
                        if bad:
                            results[key] = (bad, e.line)
        for (rule, what), (bad, line) in sorted(results.items()):
            self.chk.ob(rule, f, what, bad is None, bad, line)

    def vector(self, f, st, scope, facts, after, v):
        kind, fresh = self.kind(v, f)
        if v[0] == "g":
            return "the shared empty vector is changed"
        if fresh and not self.hashed_between(f, st, v):
            return None
        want, have, reset = [], [], False
        for e in scope:
            if self.mutated(e, f) == v:
                if not reset:
                    want.append(entries(e, v, facts))
            elif uses_as_key(e, v):
                reset = False       # its hash is taken again
            elif e.kind == "set" and e.args[1] == CACHE and \
                    strip(e.args[0]) == v:
                if e.args[2] == K(None) or e.args[2][0] in ("call",) and \
                        not contains(e.args[2], lambda x: x[0] == "loopheap"):
                    reset = True
                    want, have = [], []
                else:
                    got = xors(e.args[2], v)
                    if got is None:
                        return None     # taken by hash-assigned
                    have = got      # all that was xor-ed on until here
        if reset or any(x.kind == "set" and x.args[1] == CACHE and
                        strip(x.args[0]) == v and x.args[2] == K(None)
                        for x in after):
            return None
        if kind == NM and not have:
            if v[0] == "p" or v == ME:
                self.dirty.setdefault((f.qual, v[1]), f)
                return None             # its callers are judged
            if v[0] == "attr" and v[1] == ME and f.name == "__init__":
                return None
        if any(w is None for w in want):
            return "its entries change and its cached hash is not cleared"
        for choice in choices(want):
            if balance([x for c in choice for x in c], v, facts) == \
                    balance(have, v, facts):
                return None
        return "its cached hash is not updated by what changed (%s)" % (
            "nothing" if not have else " ^ ".join(
                "hash((%s, %s))" % (show(a)[:40], show(b)[:60])
                for a, b in have))

    def hashed_between(self, f, st, v):
        "Whether something made here is hashed and changed afterwards."
        seen = False
        for e in doubled(st.events):
            if uses_as_key(e, v):
                seen = True
            elif e.kind == "set" and e.args[1] == CACHE and \
                    strip(e.args[0]) == v:
                if e.args[2] == K(None):
                    seen = False
                elif e.args[2][0] == "attr":
                    seen = True
            elif seen and self.mutated(e, f) == v:
                return True
        return False

    def homes(self, f, states):
        "Mappings and sets that a parameter is put into: vector -> them."
        out = {}
        for st in states:
            for e in doubled(st.events, 1):
                for w, v in put_in(e):
                    k = self.kind(v, f)
                    if k and v[0] in ("p", "elem", "key") and \
                            strip(w)[0] != "obj":
                        out.setdefault(v, set()).add(strip(w))
        return out

    def as_key(self, f, scope, facts, v, homes, st):
        kind, fresh = self.kind(v, f)
        if v == ME and f.cls is not None and f.cls.qual == HV and \
                f.name not in MUTATORS:
            return "it is changed, and may be a key of any expression"
        if kind != HV or v == ME:
            return None
        places = set(homes.get(v, ())) if v[0] == "p" else set()
        if v[0] in ("elem", "key"):
            places.add(strip(v[1]))
        gone = set()
        inside = set()
        for e in scope:
            if self.mutated(e, f) == v:
                for w in places - gone:
                    if facts.get(("in", v, w)) is False or any(
                            strip(t) == ("in", v, w) and b is False
                            for t, b in facts.items()):
                        continue
                    return "it is changed while it may be in %s" % \
                        show(w)[:60]
                for w in inside:
                    return "it is changed after being put in %s" % \
                        show(w)[:60]
            for w, x in put_in(e):
                if x == v:
                    inside.add(strip(w))
                    gone.discard(strip(w))
            for w, x in taken_out(e):
                if x == v:
                    gone.add(strip(w))
                    inside.discard(strip(w))
        return None

    def assigned(self, f, e, scope, i):
        "A cached hash given in another way than clearing or updating it."
        v, val = strip(e.args[0]), e.args[2]
        if val == K(None) or xors(val, v) is not None:
            return None
        val = strip(val)
        if val[0] in ("attr", "getattr") and val[2] in (CACHE, K(CACHE)):
            src = strip(val[1])
            same = v[0] == "new" and v[2] and strip(v[2][0]) == src or \
                v[0] == "call" and (
                    v[1][0] == "attr" and v[1][2] == "copy" and
                    strip(v[1][1]) == src or
                    v[2] and strip(v[2][0]) == src)
            changed = any(self.mutated(x, f) in (v, src) for x in scope)
            if same and not changed:
                return None
            return "the hash of %s is given to something else" % \
                show(src)[:60]
        if f.name == "__hash__" or val[0] == "call":
            return None
        return "a cached hash is set to %s" % show(val)[:80]

    def lent(self):
        """A vector handed to a function that changes it must not be a key of
        somebody else's mapping: it is one made by its caller."""
        todo = []
        for f, states in self.runs.items():
            for st in states:
                for e in doubled(st.events, 1):
                    v = self.mutated(e, f)
                    if v is not None and v[0] == "p" and \
                            (self.kind(v, f) or (None,))[0] == HV and \
                            (f.qual, v[1]) not in todo:
                        todo.append((f.qual, v[1]))
        done = set()
        while todo:
            fq, p = todo.pop()
            if (fq, p) in done:
                continue
            done.add((fq, p))
            for q, r in sorted(self.all.items()):
                if ".tests." in q or is_new(r.func):
                    continue
                for e in r.events:
                    if e.kind != "call":
                        continue
                    g = self.callee(e.args[0], r.func)
                    if g is None or g.qual != fq:
                        continue
                    for name, a in self.bound(g, e):
                        if name != p:
                            continue
                        for src in sources(strip(a), r.events):
                            if src[0] == "p":
                                todo.append((q, src[1]))
                                continue
                            theirs = src[0] in ("key", "elem", "attr", "g") \
                                and strip(src[1])[0] in ("p", "attr") or \
                                src[0] == "g"
                            self.chk.ob(
                                "changed-one-is-own", r.func,
                                "%s of %s" % (p, fq.rpartition(".")[2]),
                                not theirs, "%s changes %s, a key of an"
                                " expression that others hold" %
                                (fq, show(src)[:60]), e.line)

    def callers(self):
        "What a function changes without updating must be new to its caller."
        todo = list(self.dirty)
        done = set()
        while todo:
            fq, p = todo.pop()
            if (fq, p) in done:
                continue
            done.add((fq, p))
            for q, r in sorted(self.all.items()):
                if ".tests." in q or is_new(r.func):
                    continue
                for e in r.events:
                    if e.kind != "call":
                        continue
                    g = self.callee(e.args[0], r.func)
                    if g is None or g.qual != fq:
                        continue
                    for name, a in self.bound(g, e):
                        if name != p:
                            continue
                        a = strip(a)
                        k = self.kind(a, r.func)
                        if a[0] == "p" and k:
                            todo.append((q, a[1]))
                            continue
                        ok = k is None or k[1] or a[0] == "call" and \
                            k[0] == NM
                        self.chk.ob("changed-when-new", r.func,
                                    "%s of %s" % (p, fq.rpartition(".")[2]),
                                    ok, "%s changes %s, which may have been"
                                    " hashed" % (fq, show(a)[:60]), e.line)


def sources(a, events, depth=0):
    "Where a value handed on came from, through containers filled here."
    at = []
    t = a
    while t[0] == "sub" and is_const(t[2]):
        at.append(t[2][2])
        t = strip(t[1])
    if t[0] not in ("elem", "val") or depth > 4:
        yield a
        return
    root = t
    while root[0] in ("elem", "val", "sub"):
        root = strip(root[1])
    if root[0] not in ("call", "new", "obj"):
        yield a
        return
    found = False
    for e in events:
        if e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] in ("add", "append") and e.args[1]:
            into, x = strip(e.args[0][1]), strip(e.args[1][0])
        elif e.kind == "append":
            into, x = strip(e.args[0]), strip(e.args[1])
        elif e.kind == "setitem":
            into, x = strip(e.args[0]), strip(e.args[2])
        else:
            continue
        while into[0] in ("elem", "val", "sub"):
            into = strip(into[1])
        if into != root:
            continue
        for i in reversed(at):
            if x[0] == "tuple" and isinstance(i, int) and i < len(x[1]):
                x = strip(x[1][i])
            else:
                x = None
                break
        if x is not None:
            found = True
            yield from sources(x, events, depth + 1)
    if not found:
        yield a


def scopes(events, facts, after):
    """(events of one level, facts there, what follows at the levels above)
    for a path and for every path of every loop in it."""
    yield [e for e in events if e.kind != "loop"], facts, after
    for i, e in enumerate(events):
        if e.kind == "loop":
            rest = [x for x in events[i+1:] if x.kind != "loop"] + after
            for p in e.args[2]:
                inner = dict(facts)
                inner.update(dict(p[2]) if not isinstance(p[2], dict)
                             else p[2])
                yield from scopes(p[1], inner, rest)


def doubled(events, times=2):
    "A path's events with every loop body repeated."
    for e in events:
        if e.kind == "loop":
            for _ in range(times):
                for p in e.args[2]:
                    yield from doubled(p[1], 1)
        else:
            yield e


def put_in(e):
    "(container, key) that an event stores under."
    if e.kind in ("setitem", "setdefault"):
        yield e.args[0], strip(e.args[1])
    elif e.kind == "call" and e.args[0][0] == "attr" and \
            e.args[0][2] in ("add", "setdefault") and e.args[1]:
        yield e.args[0][1], strip(e.args[1][0])


def taken_out(e):
    if e.kind == "delitem":
        yield e.args[0], strip(e.args[1])
    elif e.kind == "call" and e.args[0][0] == "attr" and e.args[1] and \
            e.args[0][2] in ("pop", "remove", "discard", "__delitem__"):
        yield e.args[0][1], strip(e.args[1][0])


def keys_in(e):
    "Everything an event uses as a key of a mapping or a member of a set."
    for _, x in put_in(e):
        yield x
    for _, x in taken_out(e):
        yield x
    if e.kind == "getitem":
        yield strip(e.args[1])
    if e.kind == "compare" and isinstance(e.args[0], tuple) and \
            e.args[0][0] == "in":
        yield strip(e.args[0][1])


def uses_as_key(e, v):
    if any(x == v for _, x in put_in(e)) or \
            any(x == v for _, x in taken_out(e)):
        return True
    if e.kind == "getitem":
        return strip(e.args[1]) == v
    if e.kind == "call" and e.args[0] in (("b", "hash"), ("b", "set"),
                                          ("b", "frozenset")):
        return any(strip(a) == v for a in e.args[1])
    if e.kind == "compare" and isinstance(e.args[0], tuple) and \
            e.args[0][0] == "in":
        return strip(e.args[0][1]) == v
    return False


def entries(e, v, facts):
    "Ways the entries change: list of alternatives, each a list of (key, value)."
    if e.kind == "delitem":
        k = strip(e.args[1])
        return [[(k, ("sub", v, k))]]
    if e.kind == "setitem":
        k, new = strip(e.args[1]), strip(e.args[2])
        old = (k, ("sub", v, k))
        src = origin(v)
        known = None
        for t, b in facts.items():
            t = strip(t)
            if t[0] == "in" and t[1] == k and t[2] == src and src != v:
                known = b
        if known is True:
            return [[old, (k, new)]]
        if known is False:
            return [[(k, new)]]
        return [[old, (k, new)], [(k, new)]]
    if e.kind == "call" and e.args[0][2] in ("pop", "__delitem__") and \
            e.args[1]:
        k = strip(e.args[1][0])
        return [[(k, ("sub", v, k))]]
    return None


def origin(v):
    while v[0] == "call" and v[1][0] == "attr" and v[1][2] == "copy":
        v = strip(v[1][1])
    return v


def choices(want):
    if not want:
        yield []
        return
    for c in want[0]:
        for rest in choices(want[1:]):
            yield [c] + rest


def xors(t, v):
    "The entries whose hashes are xor-ed onto a vector's own."
    t = strip(t)
    if t[0] == "bin" and t[1] == "^":
        a, b = xors(t[2], v), xors(t[3], v)
        return None if a is None or b is None else a + b
    if t[0] in ("attr", "getattr") and t[2] in (CACHE, K(CACHE)) and \
            strip(t[1]) == v or t[0] in ("loopheap", "loopvar", "loopout"):
        return []
    if t[0] == "call" and t[1] == ("b", "hash") and len(t[2]) == 1 and \
            t[2][0][0] == "tuple" and len(t[2][0][1]) == 2:
        return [tuple(t[2][0][1])]
    if t[0] == "call" and t[1] == ("b", "hash") and len(t[2]) == 1 and \
            strip(t[2][0]) == v:
        return []
    return None


def balance(pairs, v, facts):
    "The entries left after those that cancel, in one notation."
    src = origin(v)
    known = {}
    for t, b in facts.items():
        t = strip(t)
        if b and t[0] == "cmp" and t[1] == "==":
            for a, c in ((t[2], t[3]), (t[3], t[2])):
                if is_const(c):
                    known[a] = c

    def norm(t):
        t = strip(t)
        while t[0] == "sub" and t[1][0] == "call" and t[1][1][0] == "attr" \
                and t[1][1][2] == "copy":
            t = ("sub", strip(t[1][1][1]), t[2])
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "pop" and \
                len(t[2]) == 1:
            t = ("sub", origin(strip(t[1][1])), t[2][0])
        if t in known:
            return known[t]
        if t[0] == "bin":
            t = ("bin", t[1], norm(t[2]), norm(t[3]))
            if all(is_const(x) and isinstance(x[2], (int, float))
                   for x in t[2:4]) and t[1] in "+-*":
                a, b = t[2][2], t[3][2]
                r = a + b if t[1] == "+" else a - b if t[1] == "-" else a*b
                return K(r)
        return t
    left = {}
    for k, x in pairs:
        key = (norm(k), norm(x))
        left[key] = not left.get(key, False)
    return {k for k, on in left.items() if on}


# ----------------------------------------------------- hash and equality ----
def own(prog, cq, name):
    return prog.classes[cq].methods.get(name)


def returns(prog, f, inlined=()):
    spec = Every(prog)
    spec.inlined = set(inlined)
    eng = Engine(prog, spec)
    return [(st, strip(v)) for st, v in eng.run(f).ret]


def self_attrs(t):
    "Attributes of self that a term reads."
    out = set()
    for x in subterms(t):
        if x[0] in ("attr", "getattr") and x[1] == ME:
            out.add(x[2][2] if isinstance(x[2], tuple) else x[2])
        if x[0] == "sub" and x[1] == ("attr", ME, "descr") and is_const(x[2]):
            out.add(x[2][2])
        if x[0] == "call" and x[1] == ("attr", ("attr", ME, "descr"), "get") \
                and x[2] and is_const(x[2][0]):
            out.add(x[2][0][2])
    return out - {"descr"}


def hashes(chk):
    prog = chk.prog
    for cq, cls in sorted(prog.classes.items()):
        if ".tests." in cq:
            continue
        h, eq = own(prog, cq, "__hash__"), own(prog, cq, "__eq__")
        if h is not None:
            chk.analysed([h.qual])
        if h is not None and prog.is_subclass(cq, HV):
            bad = None
            for st, v in returns(prog, h):
                bad = bad or order_free(v, st)
            chk.ob("hash-of-content", h, cq, bad is None, bad,
                   h.node.lineno)
        if eq is not None and h is None and "__hash__" not in cls.attrs:
            base = any("__hash__" in prog.classes[b].methods or
                       "__hash__" in prog.classes[b].attrs
                       for b in prog.mro(cq)[1:] if b in prog.classes)
            chk.ob("still-hashable", eq, cq, not base,
                   "a class that defines equality alone has no hash",
                   eq.node.lineno)
        given = (cls.attrs.get("__hash__") or [None])[-1]
        if expression(prog, cq) and (h is not None or given is not None):
            why = by_chance(prog, h) if h is not None else borrowed(given)
            if h is not None:
                chk.ob("hash-of-content", h, cq, not why, why, h.node.lineno)
            else:
                f = next(iter(cls.methods.values()))
                chk.ob("hash-of-content", f, cq + ".__hash__", not why, why,
                       getattr(given, "lineno", None))
        if h is None or eq is None or cq == VK:
            continue
        used = set()
        for st, v in returns(prog, h):
            used |= self_attrs(v)
            if contains(v, lambda x: x == ("b", "id")):
                used.add("which object it is (id)")
        same = None
        for st, v in returns(prog, eq):
            if is_const(v) and not v[2] or v == ("b", "NotImplemented"):
                continue
            if v[0] in ("new", "call"):
                same = None
                break               # a constraint, not an answer
            got = equal_fields(st, v)
            same = got if same is None else same & got
        if same is None:
            continue
        extra = used - same
        chk.ob("hash-follows-equality", h, cq, not extra,
               "the hash depends on %s, which equal objects need not share" %
               ", ".join(sorted(extra)), h.node.lineno)


def expression(prog, cq):
    return any(b.endswith((".NomialData", ".NomialArray"))
               for b in prog.mro(cq))


def by_chance(prog, h):
    "What an expression's hash depends on that equal ones need not share."
    for _, v in returns(prog, h):
        for x in subterms(v):
            if x == ("b", "id"):
                return "the hash depends on which object it is (id)"
            if x[0] == "call" and x[1] == ("attr", ("b", "object"),
                                           "__hash__"):
                return "the hash depends on which object it is"
            text = x[0] == "call" and x[1] in (
                ("b", "str"), ("b", "repr")) and ME in x[2] or \
                x[0] == "call" and x[1][0] == "attr" and x[1][1] == ME and \
                x[1][2] in ("str_without", "__str__", "__repr__", "latex",
                            "parse_ast")
            if text:
                return ("the hash is that of its text, which for equal"
                        " expressions depends on how they were written")
            if x[0] in ("attr", "getattr") and x[1] == ME and \
                    x[2] in ("ast", "cached_strs", K("ast")):
                return "the hash depends on how the expression was written"
    return None


def borrowed(given):
    "A __hash__ taken from somewhere else."
    if isinstance(given, ast.Attribute) and given.attr == "__hash__":
        base = ast.unparse(given.value)
        if base == "object" or base.rpartition(".")[2] == "ndarray":
            return "the hash depends on which object it is"
    if isinstance(given, ast.Name) and given.id == "id" or isinstance(
            given, ast.Lambda) and any(isinstance(n, ast.Name) and
                                       n.id == "id" for n in ast.walk(given)):
        return "the hash depends on which object it is"
    return None


def equal_fields(st, v):
    "Attributes known to be equal when a comparison returns v truly."
    out = set()

    def add(t):
        if t[0] == "cmp" and t[1] == "==":
            a, b = strip(t[2]), strip(t[3])
            if a[0] == b[0] == "attr" and a[2] == b[2] and ME in (a[1], b[1]):
                out.add(a[2])
            if a[0] == b[0] == "tuple" and len(a[1]) == len(b[1]):
                for x, y in zip(a[1], b[1]):
                    add(("cmp", "==", x, y))
        if t[0] == "bool" or t[0] == "and":
            for x in t[1:]:
                if isinstance(x, tuple):
                    add(x)
    for t, b in st.facts.items():
        if b:
            add(strip(t))
    add(v)
    return out


def order_free(t, st):
    "What is wrong with the hash of a mapping's content."
    if t == ("attr", ME, CACHE):
        return None                 # what was stored, judged where it was
    calls = [x for x in subterms(t) if x[0] == "call"]
    whole = any(x[1] == ("attr", ME, "items") for x in calls) or \
        contains(t, lambda x: x[0] in ("obj", "loopout", "elem")) or any(
            x[1] == ("b", "frozenset") for x in calls)
    keys_only = any(x[1] in (("attr", ME, "keys"), ("attr", ME, "values"))
                    for x in calls)
    if not whole:
        return "the hash does not depend on every entry%s" % (
            ": only the keys or the values" if keys_only else "")
    ordered = any(x[1][0] == "b" and x[1][1] in ("tuple", "list", "str",
                                                 "repr") and contains(
        x, lambda y: y == ME) for x in calls) and not any(
            x[1] in (("b", "sorted"), ("b", "frozenset")) for x in calls)
    if ordered:
        return "the hash depends on the order of the entries"
    for x in calls:
        if x[1][0] == "g" and x[1][1].endswith("reduce") and x[2]:
            f = x[2][0]
            if f[0] == "g" and f[1].rpartition(".")[2] not in (
                    "xor", "add", "mul", "and_", "or_"):
                return "the hash depends on the order of the entries"
    return None


# --------------------------------------------------------------- identity ----
def identity(chk):
    prog = chk.prog
    if VK not in prog.classes:
        return
    init, eq = own(prog, VK, "__init__"), own(prog, VK, "__eq__")
    h = own(prog, VK, "__hash__")
    if init is None or eq is None or h is None:
        chk.notes.append("undecided: the class of variables has no equality")
        return
    inl = {"gpkit.varkey.VarKey.str_without",
           "gpkit.repr_conventions.lineagestr"}
    spec = Every(prog)
    spec.inlined = inl
    try:
        outs = Engine(prog, spec).run(init)
    except AnalysisBroken as e:
        chk.notes.append("undecided: %s (%s)" % (init.qual, e))
        return
    chk.analysed([init.qual, eq.qual, h.qual])
    fields = None
    for st, v in returns(prog, eq):
        if is_const(v) and (not v[2]) or v == ("b", "NotImplemented"):
            continue
        if is_const(v) and v[2] is True and any(
                b and t[0] == "is" and ME in t[1:] for t, b in
                st.facts.items()):
            continue
        got = equal_fields(st, v)
        fields = got if fields is None else fields & got
    fields = fields or set()
    hashed = set()
    for st, v in returns(prog, h):
        hashed |= self_attrs(v)
    missing = extra = numbers = uneven = None
    n = 0
    for st, _ in outs.ret:
        last = {}
        for e in st.events:
            if e.kind == "set" and e.args[0] == ME:
                last[e.args[1]] = e.args[2]
        n += 1
        deps = set()
        for a in fields:
            deps |= reads(last[a], st, last) if a in last else {a}
        lost = {"name", "lineage"} - deps
        if not deps & {"unitrepr", "units"}:
            lost.add("units")
        if "idx" not in deps and not falsy(st, "idx"):
            lost.add("idx")
        lost = {x for x in lost if not (x == "lineage" and
                                        falsy(st, "lineage"))}
        if lost:
            missing = "variables that differ in %s are taken for the same" % \
                ", ".join(sorted(lost))
        odd = deps - IDENTITY - {"key", "keys"}
        if odd:
            extra = "variables are told apart by %s" % ", ".join(sorted(odd))
        if "lineage" in deps and not falsy(st, "lineage") and not any(
                numbered(last[a], st) if a in last else a == "lineage"
                for a in fields):
            numbers = "the numbers of a lineage do not count"
        for a in hashed:
            t = last.get(a)
            if t is None:
                if a not in fields:
                    uneven = "the hash depends on %s, which equality" \
                        " ignores" % a
                continue
            if contains(strip(t), lambda x: x == ("b", "id")):
                uneven = "the hash depends on which object it is (id)"
            inner = [last.get(b, ("attr", ME, b)) for b in fields]
            if not covered(strip(t), [strip(x) for x in inner]):
                more = reads(t, st, last) - deps
                if more:
                    uneven = "the hash depends on %s, which equality" \
                        " ignores" % ", ".join(sorted(more))
    if not fields:
        missing = "equality compares nothing"
    chk.ob("identity", init, "what tells variables apart", missing is None,
           missing, init.node.lineno)
    chk.ob("identity", init, "nothing else tells them apart", extra is None,
           extra, init.node.lineno)
    chk.ob("identity", init, "numbers of the lineage", numbers is None,
           numbers, init.node.lineno)
    chk.ob("hash-follows-equality", h, VK, uneven is None, uneven,
           h.node.lineno)


def falsy(st, a):
    for t, b in st.facts.items():
        t = strip(t)
        if not b and t in (("attr", ME, a), ("sub", ("attr", ME, "descr"),
                                             K(a))) or \
                t == ("in", K(a), ("p", "descr")) and not b or \
                t[0] == "is" and t[1] == ("attr", ME, a) and \
                t[2] == K(None) and b:
            return True
    return False


def reads(t, st, last, depth=0):
    "Descriptions a term depends on, lists made on the way included."
    out = set()
    for a in self_attrs(t):
        if a in last and a not in IDENTITY and depth < 3:
            out |= reads(last[a], st, last, depth + 1)
        else:
            out.add(a)
    for x in subterms(t):
        if x[0] == "p" and x[1] == "name":
            out.add("name")
        if x[0] == "obj":
            for ent in st.objs.get(x[2], ()):
                for y in ent[1:3]:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        out |= self_attrs(y)
    return out


def numbered(t, st):
    "Whether a lineage takes part whole, or with its numbers."
    lin = ("attr", ME, "lineage")
    for x in subterms(t):
        if x[0] == "call" and x[1][0] == "b" and x[1][1] in (
                "str", "repr", "hash", "tuple") and any(
                    strip(a) == lin for a in x[2]):
            return True
        if x[0] in ("tuple", "fmt") and any(strip(y) == lin for y in x[1]):
            return True
        if x[0] == "bin" and x[1] == "%" and (
                strip(x[3]) == lin or x[3][0] == "tuple" and
                any(strip(y) == lin for y in x[3][1])):
            return True
        if x[0] == "obj":
            for ent in st.objs.get(x[2], ()):
                for y in ent[1:3]:
                    if isinstance(y, tuple) and contains(
                            y, lambda z: z[0] == "sub" and z[2] == K(1) and
                            contains(z[1], lambda w: w == lin)):
                        return True
    return False


def covered(t, parts):
    "Whether t is made of the parts and constants alone."
    if t in parts or is_const(t) or t[0] in ("b", "g"):
        return True
    if t[0] == "call":
        return covered(t[1], parts) and all(
            covered(strip(a), parts) for a in t[2])
    if t[0] == "tuple":
        return all(covered(strip(a), parts) for a in t[1])
    if t[0] == "bin":
        return covered(strip(t[2]), parts) and covered(strip(t[3]), parts)
    return False


def rewritten(chk, everyone):
    "No one changes what tells an existing variable from others."
    n = 0
    for q, r in sorted(everyone.items()):
        if ".tests." in q or is_new(r.func):
            continue
        for e in r.events:
            keys = []
            base = None
            if e.kind in ("setitem", "delitem", "setdefault"):
                base, keys = e.args[0], [e.args[1]]
            elif e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][2] in ("pop", "update", "setdefault"):
                base = e.args[0][1]
                keys = list(e.args[1][:1]) + [K(k) for k, _ in e.args[2]]
            if base is None:
                continue
            base = strip(base)
            if base[0] not in ("attr", "getattr") or base[2] not in (
                    "descr", K("descr")):
                continue
            if base[1] == ME and r.func.name in ("__init__", "__setstate__") \
                    and r.func.cls is not None:
                continue
            n += 1
            hit = [k[2] for k in keys if is_const(k) and k[2] in IDENTITY]
            chk.ob("identity-kept", r.func, show(base)[:60], not hit,
                   "the %s of an existing variable is changed" %
                   ", ".join(map(str, hit)), e.line)
    chk.stats["writes to descriptions"] = n


# ---------------------------------------------------------------- pickles ----
def pickled(chk):
    """A cached hash of strings means nothing in another process: the pickled
    state of a class whose hash reads it must leave it out."""
    prog = chk.prog
    for cq, cls in sorted(prog.classes.items()):
        h = own(prog, cq, "__hash__")
        if ".tests." in cq or h is None:
            continue
        cached = set()
        for st, v in returns(prog, h):
            if v[0] == "attr" and v[1] == ME:
                cached.add(v[2])
            for e in st.events:
                if e.kind == "set" and e.args[0] == ME and \
                        strip(e.args[2]) == v:
                    cached.add(e.args[1])
        for a in sorted(cached):
            where, bad = saved(prog, cq, a)
            chk.ob("hash-not-saved", where or h, "%s.%s" % (cq, a),
                   bad is None, bad, (where or h).node.lineno)


def saved(prog, cq, a):
    for name in ("__reduce__", "__reduce_ex__"):
        f = prog.find_method(cq, name)
        if f is not None:
            rs = returns(prog, f)
            if any(contains(v, lambda x: x == ("attr", ME, "__dict__"))
                   for _, v in rs):
                return f, state_of(rs, a)
            return f, None
    f = prog.find_method(cq, "__getstate__")
    if f is None:
        return None, "the cached hash is saved with the object, and is" \
            " wrong in another process"
    bad = state_of(returns(prog, f), a)
    back = prog.find_method(cq, "__setstate__")
    if bad is not None and back is not None:
        outs = Engine(prog, Every(prog)).run(back)
        if all(any(e.kind == "set" and e.args[0] == ME and e.args[1] == a or
                   e.kind == "call" and e.args[0][0] == "attr" and
                   e.args[0][2] == "__init__" for e in st.events)
               for st, _ in outs.ret):
            bad = None
    return f, bad


def state_of(rs, a):
    for st, v in rs:
        if v == K(None) or not contains_dict(st, v):
            continue
        out = False
        for e in doubled(st.events, 1):
            if any(x == K(a) for _, x in taken_out(e)):
                out = True
            if e.kind == "setitem" and e.args[1] == K(a) and \
                    e.args[2] == K(None):
                out = True
        for e in st.events:             # {k: v for ... if k != a}
            if e.kind == "loop" and e.args[0][0] == "comp":
                if all(any(K(a) in t[2:4] for t, b in p[2]
                           if t[0] == "cmp") or any(
                               contains(t, lambda x: x == K(a))
                               for t, b in p[2]) for p in e.args[2]):
                    out = True
        if not out:
            return "the cached hash is saved with the object, and is wrong" \
                " in another process"
    return None


def contains_dict(st, v):
    own_dict = ("attr", ME, "__dict__")
    if contains(v, lambda x: x == own_dict):
        return True
    if v[0] == "obj":
        return any(contains(e.args[0], lambda x: x == own_dict)
                   for e in st.events if e.kind == "loop") or any(
                       contains(y, lambda x: x == own_dict)
                       for ent in st.objs.get(v[2], ()) for y in ent[1:3]
                       if isinstance(y, tuple) and y and
                       isinstance(y[0], str))
    return False
