"""C23: caches.  Every place that keeps a computed value to return it later is
found by its shape on the paths of its function: one path computes and stores,
another answers with what is stored.  On the storing path, what the value is
computed from must be part of the key it is stored under, or be state of the
object that holds the cache; whatever the package changes of such state on an
object that exists must clear the cache with it.  Marks that are read only for
some keys must not be answered from the cache for those.  Keys may not be
object addresses or hash values, and what a cache handed out is not changed.
Values kept through a loop must not depend on what the loop changes."""
import ast

from ..flow import Engine, K, contains, is_const, is_new, show, strip, subterms
from ..model import AnalysisBroken
from .allrun import everything
from .c03 import MARKS
from .c18 import Every

TECHNIQUE = "discovery of memo sites on paths; dependence of stored values on keys and state; invalidation coverage"
ASSUMPTIONS = [
    "the set of variables of a solution is complete before it is first printed",
    "descriptions of units, once defined, stay as they are"]
ME = ("p", "self")
COPIERS = ("frozenset", "tuple", "sorted", "list", "set", "str", "repr")
CHANGES = ("append", "extend", "update", "add", "pop", "remove", "discard",
           "clear", "insert", "setdefault", "popitem", "sort",
           "difference_update", "intersection_update", "__setitem__",
           "__delitem__")


def run(chk):
    everyone = {r.func.qual: r for r in everything(chk)
                if ".tests." not in r.func.qual}
    m = Memos(chk, everyone)
    m.find()
    m.judge()
    local_memos(chk)
    addresses(chk, everyone)
    on_classes(chk, everyone)
    chk.need("determined", 3)


def on_classes(chk, everyone):
    "What is worked out from one instance is not kept on its class."
    for q, r in sorted(everyone.items()):
        if r.func.name in ("__enter__", "__exit__"):
            continue            # an environment's setting, not a result
        for e in r.events:
            if e.kind != "set" or not isinstance(e.args[2], tuple):
                continue
            b = strip(e.args[0])
            cls = b[0] == "g" and b[1] in chk.prog.classes or \
                b == ("attr", ME, "__class__") or \
                b[0] == "call" and b[1] == ("b", "type") and b[2] == (ME,)
            fresh = strip(e.args[2])[0] == "obj" and any(
                x.kind in ("append", "setitem", "call", "getattr") and
                contains(x.args[0], lambda t: t[:2] == ("attr", ME) and
                         t[2] == e.args[1] or t == strip(e.args[2]))
                for x in r.events)
            if cls and (fresh or contains(e.args[2], lambda t: t == ME)):
                chk.ob("determined", r.func, "." + e.args[1], False,
                       "what is worked out from one instance is kept for all"
                       " of its class", e.line)


class Memo:
    def __init__(self, func, what, kind):
        self.func, self.what, self.kind = func, what, kind
        self.miss, self.hits = [], []
        self.fields = set()          # fields of self that values come from


class Memos:
    def __init__(self, chk, everyone):
        self.chk, self.prog, self.all = chk, chk.prog, everyone
        self.found = []

    # ----------------------------------------------------------- finding ----
    def find(self):
        for q, r in sorted(self.all.items()):
            if is_new(r.func) or r.func.name in (
                    "__init__", "__setstate__", "__getstate__"):
                continue
            if not self.candidate(r):
                continue
            try:
                eng = Engine(self.prog, Every(self.prog))
                outs = eng.run(r.func)
            except AnalysisBroken as e:
                self.chk.notes.append("undecided: %s (%s)" % (q, e))
                continue
            self.chk.analysed([q])
            self.shapes(r.func, outs)
        self.decorated()

    def candidate(self, r):
        read, wrote = set(), set()
        for e in r.events:
            if e.kind in ("setitem", "setdefault") and \
                    persistent(strip(e.args[0])):
                wrote.add(strip(e.args[0]))
            elif e.kind == "set":
                wrote.add(("attr", strip(e.args[0]), e.args[1]))
        for st in r.states:
            for t in st.facts:
                for x in subterms(strip(t)):
                    if x[0] in ("attr", "g", "hasattr"):
                        read.add(x if x[0] != "hasattr"
                                 else ("attr", x[1], name_of(x[2])))
        for e in r.events:
            if e.kind == "getitem":
                read.add(strip(e.args[0]))
            if e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][2] in ("get", "setdefault"):
                read.add(strip(e.args[0][1]))
                if e.args[0][2] == "setdefault" and \
                        persistent(strip(e.args[0][1])):
                    wrote.add(strip(e.args[0][1]))
        return bool(read & wrote)

    def shapes(self, f, outs):
        paths = [(st, strip(v), flat(st)) for st, v in outs.ret]
        keyed, plain = {}, {}
        for st, v, evs in paths:
            for e in evs:
                c = key = val = None
                if e.kind == "setitem" and persistent(strip(e.args[0])):
                    c, key, val = strip(e.args[0]), e.args[1], e.args[2]
                elif e.kind == "setdefault" and persistent(strip(e.args[0])):
                    c, key, val = strip(e.args[0]), e.args[1], e.args[2]
                elif e.kind == "set" and strip(e.args[0]) == ME:
                    plain.setdefault(e.args[1], []).append(
                        (st, v, e, e.args[2]))
                if c is not None:
                    keyed.setdefault(c, []).append((st, v, e, key, val))
        for c, stores in keyed.items():
            memo = Memo(f, c, "keyed")
            for st, v, e, key, val in stores:
                if v == strip(val) or v == ("sub", c, strip(key)) or \
                        self.looked_up(st, c, key, False):
                    memo.miss.append((st, e, strip(key), val))
            for st, v, evs in paths:
                if any(x[0] is st for x in stores):
                    continue
                for k in gotten(v, c):
                    memo.hits.append((st, k))
                if not any(h[0] is st for h in memo.hits):
                    for e in evs:
                        if e.kind == "getitem" and strip(e.args[0]) == c:
                            memo.hits.append((st, strip(e.args[1])))
            if memo.miss and memo.hits:
                self.found.append(memo)
        for x, stores in plain.items():
            here = ("attr", ME, x)
            memo = Memo(f, here, "plain")
            for st, v, e, val in stores:
                if is_const(val) or not self.absent(st, here):
                    continue
                memo.miss.append((st, e, None, val))
            for st, v, evs in paths:
                if any(s[0] is st for s in stores):
                    continue
                if contains(v, lambda t: t == here):
                    memo.hits.append((st, None))
            if memo.miss and memo.hits and here not in keyed:
                self.found.append(memo)
            self.single(f, x, stores, paths)

    def looked_up(self, st, c, key, found):
        for t, b in st.facts.items():
            t = strip(t)
            if t[0] == "in" and t[2] == c:
                return True
        return any(e.kind == "handler" for e in st.events)

    def absent(self, st, here):
        """Whether a path has seen that there is nothing at self.X: the test
        itself is gone once the attribute is written, so any test counts."""
        for e in flat(st):
            if e.kind == "compare" and isinstance(e.args[0], tuple) and \
                    contains(strip(e.args[0]), lambda t: t == here):
                return True
        for t in st.facts:
            if contains(strip(t), lambda x: x == here or x[0] == "hasattr" and
                        x[1] == ME and name_of(x[2]) == here[2]):
                return True
        # truth tests leave no event: another path has the fact
        return True

    def single(self, f, x, stores, paths):
        """self.A names what self.B was computed for: answering with B when A
        is the argument given."""
        mine = {a for st, v, e, val in stores for a in [e.args[1]]}
        for st, v, evs in paths:
            if any(s[0] is st for s in stores):
                continue
            for t, b in st.facts.items():
                t = strip(t)
                if not b or t[0] not in ("is", "cmp") or \
                        t[0] == "cmp" and t[1] != "==":
                    continue
                ab = t[1:3] if t[0] == "is" else t[2:4]
                for u, w in (ab, ab[::-1]):
                    if u == ("attr", ME, x) and w[0] == "p" and w != ME:
                        raw = any(strip(val) == w for _, _, _, val in stores)
                        held = [y for y in subterms(v) if y[0] == "attr" and
                                y[1] == ME and y[2] not in mine]
                        if raw and held:
                            self.chk.ob(
                                "determined", f, "self.%s" % x, False,
                                "answers with %s when %s is the %s of last"
                                " time, which may have changed since" %
                                (show(held[0]), show(w), show(w)),
                                f.node.lineno)

    def decorated(self):
        for q, f in sorted(self.prog.functions.items()):
            if ".tests." in q or not hasattr(f.node, "decorator_list"):
                continue
            for d in f.node.decorator_list:
                d = d.func if isinstance(d, ast.Call) else d
                name = d.attr if isinstance(d, ast.Attribute) else \
                    getattr(d, "id", "")
                if name not in ("lru_cache", "cache", "cached_property"):
                    continue
                try:
                    outs = Engine(self.prog, Every(self.prog)).run(f)
                except AnalysisBroken as e:
                    self.chk.notes.append("undecided: %s (%s)" % (q, e))
                    continue
                memo = Memo(f, ("attr", ME, f.name), "plain"
                            if name == "cached_property" else "decorated")
                for st, v in outs.ret:
                    memo.miss.append((st, None, None, v))
                self.found.append(memo)

    # ----------------------------------------------------------- judging ----
    def judge(self):
        self.chk.stats["memo sites"] = sorted(
            "%s: %s" % (m.func.qual, show(m.what)) for m in self.found)
        self.writes = self.all_writes()
        for m in self.found:
            self.determined(m)
            self.stale(m)
            self.marked(m)
        self.handed_out()

    def owner(self, m):
        "Whether the cache belongs to one object, whose state is thus fixed."
        if m.kind == "decorated":
            return False
        root = m.what
        while root[0] in ("attr", "sub") and root[1] != ME:
            root = root[1]
        if root[0] != "attr" or root[1] != ME:
            return False
        if m.kind == "plain":
            return True
        if m.func.cls is None:
            return True
        for c in self.prog.mro(m.func.cls.qual):
            if c not in self.prog.classes:
                continue
            v = self.prog.classes[c].attrs.get(root[2])
            node = getattr(v, "value", v)
            if isinstance(node, (ast.Dict, ast.Call)):
                return any(("attr", root[2]) == ("attr", a)
                           for a, f, e in self.set_attrs
                           if f.cls is not None and
                           self.related(f.cls.qual, m.func.cls.qual))
        return True

    def related(self, a, b):
        return self.prog.is_subclass(a, b) or self.prog.is_subclass(b, a)

    def determined(self, m):
        own = self.owner(m)
        bad = {}
        for st, e, key, val in m.miss:
            parts = components(key, st) if key is not None else ([], [])
            params = [("p", p) for p in m.func.all_params()] \
                if m.kind == "decorated" else []
            d = Deps(self.prog, st, parts[0] + params, m.what, own)
            d.walk(val)
            why = d.why()
            if not why and key is not None:
                why = unordered(parts[1], val)
            if not why and key is not None:
                why = weak(key)
            if not why and key is not None and not own and \
                    contains(key, lambda t: t == ME):
                why = None
            if why:
                bad[why] = e.line if e is not None else m.func.node.lineno
            m.fields |= d.fields
            m.calls = getattr(m, "calls", set()) | d.calls
        # the choice between two values must be determined as well
        for i, (st, e, key, val) in enumerate(m.miss):
            parts = components(key, st)[0] if key is not None else []
            for st2, e2, key2, val2 in m.miss[i+1:]:
                if e is None or shape(val) == shape(val2):
                    continue
                for t, b in st.facts.items():
                    if t in st2.facts and st2.facts[t] != b and \
                            not contains(strip(t), lambda x: x == m.what):
                        d = Deps(self.prog, st, parts, m.what, own)
                        d.walk(t)
                        m.fields |= d.fields
                        if d.why() and only_difference(st, st2, t):
                            bad["which value is kept depends on %s, which is"
                                " not in the key" % show(t)[:60]] = e.line
        for why, line in sorted(bad.items()):
            self.chk.ob("determined", m.func, show(m.what), False, why, line)
        if not bad:
            self.chk.ob("determined", m.func, show(m.what), True, "",
                        m.func.node.lineno)
        bad = None
        for st, k in m.hits:
            if k is None or m.kind != "keyed":
                continue
            if not any(same_key(k, key, s) for s, _, key, _ in m.miss):
                bad = "it answers with the entry of %s, but values are kept" \
                    " under %s" % (show(k)[:60], show(m.miss[0][2])[:60])
        if m.kind == "keyed":
            self.chk.ob("found-as-kept", m.func, show(m.what), bad is None,
                        bad, m.func.node.lineno)
        if m.kind == "decorated":
            self.decorated_key(m)

    def decorated_key(self, m):
        "Calls are told apart by == of the arguments."
        if m.func.cls is None or m.func.all_params()[:1] != ["self"]:
            return
        eq = self.prog.find_method(m.func.cls.qual, "__eq__")
        if eq is None:
            return
        self.chk.ob("determined", m.func, show(m.what), False,
                    "equal objects share an entry, and equality (%s) ignores"
                    " part of what the answer is made from" % eq.qual,
                    m.func.node.lineno)

    # ------------------------------------------------------ invalidation ----
    def all_writes(self):
        "field -> [(function, base, event)] on objects that exist already."
        out = {}
        self.set_attrs = []
        for q, r in self.all.items():
            f = r.func
            for e in r.events:
                if e.kind == "set":
                    base, field = strip(e.args[0]), e.args[1]
                    self.set_attrs.append((field, f, e))
                elif e.kind in ("setitem", "delitem", "append", "extend",
                                "setdefault"):
                    t = strip(e.args[0])
                    if t[0] not in ("attr", "getattr"):
                        continue
                    base, field = t[1], name_of(t[2])
                elif e.kind == "call" and e.args[0][0] == "attr" and \
                        e.args[0][2] in CHANGES and \
                        strip(e.args[0][1])[0] == "attr":
                    t = strip(e.args[0][1])
                    base, field = t[1], t[2]
                elif e.kind == "aug" and strip(e.args[0])[0] == "attr":
                    t = strip(e.args[0])
                    base, field = t[1], t[2]
                else:
                    continue
                if made_here(base) or self.constructing(f) and base == ME:
                    continue
                out.setdefault(field, []).append((f, base, e))
        return out

    def constructing(self, f, seen=()):
        "Run only while an object is made."
        if f.name in ("__init__", "__new__", "__setstate__", "__array_finalize__"):
            return True
        if f.cls is None or f.qual in seen or not f.name.startswith("_"):
            return False
        callers = [r.func for r in self.all.values() if any(
            e.kind == "call" and e.args[0][0] == "attr" and
            e.args[0][2] == f.name for e in r.events)]
        return bool(callers) and all(
            self.constructing(c, seen + (f.qual,)) for c in callers)

    def stale(self, m):
        if m.kind == "decorated":
            for fld in sorted(m.fields):
                for f, base, e in self.writes.get(fld, ()):
                    if base == ME and f.cls is not None and m.func.cls and \
                            self.related(f.cls.qual, m.func.cls.qual):
                        self.chk.ob(
                            "cleared", f, "%s of %s" % (fld, m.func.qual),
                            False, "%s is changed, which answers kept for"
                            " good depend on" % fld, e.line)
            return
        if not self.owner(m):
            return
        fields = self.field_closure(m)
        cls = m.func.cls
        slot = m.what
        while slot[0] != "attr" or slot[1] != ME:
            slot = slot[1]
        slot = slot[2]
        done = set()
        self.chk.stats.setdefault("state behind caches", {})[
            "%s.%s" % (m.func.qual, slot)] = sorted(fields)
        for fld in sorted(fields):
            for f, base, e in self.writes.get(fld, ()):
                if fld == slot or f is m.func or any(
                        o.func is f and o.what == ("attr", ME, fld)
                        for o in self.found):
                    continue
                if base == ME:
                    if f.cls is None or cls is None or \
                            not self.related(f.cls.qual, cls.qual):
                        continue
                elif not self.may_be(base, f, cls, fld):
                    continue
                key = (f.qual, fld, show(base))
                if key in done:
                    continue
                done.add(key)
                ok = self.cleared(f, base, e, slot)
                self.chk.ob("cleared", f, "%s of %s, behind %s" % (
                    fld, show(base)[:50], slot), ok,
                    "%s is changed and %s, computed from it by %s, is kept"
                    % (fld, slot, m.func.qual), e.line)

    def may_be(self, base, f, cls, fld):
        "Whether something of unknown kind may be an object with this cache."
        if cls is None:
            return False
        mine = {s for s in self.classes_with(fld)}
        return any(self.related(c, cls.qual) for c in mine) and \
            len(mine) > 0 and base[0] in ("p", "elem", "attr", "sub", "val")

    def classes_with(self, fld):
        if not hasattr(self, "_with"):
            self._with = {}
            for field, f, e in self.set_attrs:
                if strip(e.args[0]) == ME and f.cls is not None:
                    self._with.setdefault(field, set()).add(f.cls.qual)
        return self._with.get(fld, ())

    def field_closure(self, m):
        "Fields of the object that the value comes from, through its methods."
        fields, seen = set(m.fields), set()
        todo = list(getattr(m, "calls", ())) + list(fields)
        cls = m.func.cls.qual if m.func.cls else None
        while todo:
            name = todo.pop()
            if name in seen or cls is None:
                continue
            seen.add(name)
            g = self.prog.find_method(cls, name)
            if g is None or g.qual not in self.all or len(seen) > 30 or \
                    not self.pure(g):
                continue
            r = self.all[g.qual]
            for t in terms_of(r):
                for x in subterms(t):
                    if x[0] == "attr" and x[1] == ME:
                        fields.add(x[2])
                        todo.append(x[2])
        return {x for x in fields if
                cls is None or self.prog.find_method(cls, x) is None}

    def pure(self, g, seen=()):
        "Changes no attribute of its object, other than caches."
        if g.qual in seen:
            return True
        slots = {m.what[2] for m in self.found if m.what[0] == "attr"}
        for e in self.all[g.qual].events:
            if e.kind == "set" and strip(e.args[0]) == ME and \
                    e.args[1] not in slots:
                return False
            if e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][1] == ME and g.cls is not None:
                h = self.prog.find_method(g.cls.qual, e.args[0][2])
                if h is not None and h.qual in self.all and \
                        not self.pure(h, seen + (g.qual,)):
                    return False
        return True

    def cleared(self, f, base, e, slot):
        "On every path that makes this write, the cache is set after it."
        r = self.all[f.qual]
        try:
            states = [st for st, _ in
                      Engine(self.prog, Every(self.prog)).run(f).ret]
        except AnalysisBroken:
            states = r.states
        ok = True
        hit = False
        for st in states:
            evs = flat(st)
            for i, x in enumerate(evs):
                if x.kind == e.kind and x.line == e.line and \
                        strip(x.args[0]) == strip(e.args[0]) and \
                        (x.kind != "set" or x.args[1] == e.args[1]):
                    hit = True
                    if not any(y.kind == "set" and y.args[1] == slot and
                               strip(y.args[0]) == base and not contains(
                                   y.args[2], lambda t: t[0] == "attr" and
                                   t[2] == slot) for y in evs[i+1:]) \
                            and not any(y.kind == "set" and
                                        y.args[1] == slot and
                                        y.args[2] == K(None) and
                                        strip(y.args[0]) == base
                                        for y in evs[:i]):
                        ok = False
        return ok if hit else any(
            y.kind == "set" and y.args[1] == slot for y in r.events)

    # -------------------------------------------------------------- marks ----
    def marked(self, m):
        """What is read of the marks that names carry while they are printed
        (and of which there is no copy in the key)."""
        if not self.owner(m):
            return
        reads = {}
        self.mark_reads(m.func, reads, set())
        for guard, (q, mark) in sorted(reads.items(), key=str):
            ok = guard is not None and all(
                any(strip(t)[0] == "in" and strip(t)[1] == K(guard) and
                    b is False for t, b in st.facts.items())
                for st, _ in m.hits)
            self.chk.ob("marks-not-kept", m.func, "%s in %s" % (mark, q), ok,
                        "it answers from the cache although %s, which %s"
                        " reads, may have changed" % (mark, q),
                        m.func.node.lineno)

    def mark_reads(self, f, reads, seen):
        if f.qual in seen or f.qual not in self.all:
            return
        seen.add(f.qual)
        r = self.all[f.qual]
        for mark in sorted(MARKS):
            if not any(contains(strip(t), lambda x: reads_mark(x, mark))
                       for st in r.states for t in
                       list(st.facts) + [v for _, v in r.ret]):
                continue
            guards = None
            for st in r.states:
                if not any(contains(strip(t), lambda x: reads_mark(x, mark))
                           for t in st.facts):
                    continue
                got = {strip(t)[1][2] for t, b in st.facts.items()
                       if b and strip(t)[0] == "in" and
                       is_const(strip(t)[1])}
                guards = got if guards is None else guards & got
            for g in guards or {None}:
                reads[g] = (f.qual, mark)
        for e in r.events:
            if e.kind != "call":
                continue
            fn = e.args[0]
            if fn[0] == "g" and fn[1] in self.prog.functions:
                self.mark_reads(self.prog.functions[fn[1]], reads, seen)
            elif fn[0] == "attr" and not self.plain_args(e, r):
                for c in self.prog.classes.values():
                    g = c.methods.get(fn[2])
                    if g is not None and ".tests." not in g.qual and \
                            fn[2] in ("str_without", "latex", "lineagestr",
                                      "lines_without", "parse_ast"):
                        self.mark_reads(g, reads, seen)
        # functions that are handed on
        for name in ("try_str_without",):
            q = "gpkit.repr_conventions." + name
            if q in self.prog.functions and any(
                    e.kind == "call" and contains(
                        ("tuple", e.args[1]), lambda t: t == ("g", q))
                    for e in r.events):
                self.mark_reads(self.prog.functions[q], reads, seen)

    def plain_args(self, e, r):
        "Called with nothing but given names of what to leave out."
        if not e.args[1]:
            return False
        for a in e.args[1]:
            a = strip(a)
            items = None
            if a[0] == "tuple":
                items = a[1]
            elif a[0] == "obj":
                for st in r.states:
                    if a[2] in st.objs:
                        items = [x[1] for x in st.objs[a[2]]
                                 if x[0] == "item"]
                        if len(items) != len(st.objs[a[2]]):
                            return False
            elif is_const(a):
                items = [a]
            if items is None or not all(is_const(x) for x in items) or \
                    any(x[2] == "unnecessary lineage" for x in items):
                return False
        return True

    # --------------------------------------------------------- handed out ----
    def handed_out(self):
        "Objects that a cache answers with are not changed by their users."
        props, meths = {}, {}
        plain = {a for a, f, e in self.set_attrs}
        for m in self.found:
            if m.kind == "keyed" and m.func.name in ("__getattr__",
                                                     "__call__"):
                continue
            deco = {getattr(d, "id", getattr(d, "attr", ""))
                    for d in m.func.node.decorator_list}
            (props if deco & {"property", "cached_property"} else
             meths).setdefault(m.func.name, m)
        for q, r in sorted(self.all.items()):
            for e in r.events:
                t = changed(e)
                if t is None:
                    continue
                m = None
                if t[0] == "attr" and t[2] in props:
                    m = props[t[2]]
                elif t[0] == "call" and t[1][0] == "attr" and \
                        t[1][2] in meths:
                    m = meths[t[1][2]]
                elif t[0] == "call" and t[1][0] == "g" and \
                        t[1][1].rpartition(".")[2] in meths and \
                        t[1][1] in self.prog.functions:
                    m = meths[t[1][1].rpartition(".")[2]]
                if m is not None and m.func.name in plain and not (
                        contains(t, lambda x: x == ("attr", ME, m.func.name))
                        and r.func.cls is not None and
                        m.func.cls is not None and
                        self.related(r.func.cls.qual, m.func.cls.qual)):
                    continue        # others have a plain attribute so named
                if m is not None and m.func is not r.func:
                    self.chk.ob("answer-not-changed", r.func, show(t)[:80],
                                False, "what %s keeps and hands out is"
                                " changed" % m.func.qual, e.line)
        self.chk.ob("answer-not-changed", "gpkit", "caches", True, "", 0)


# ------------------------------------------------------------------ terms ----
class Deps:
    "What a value is computed from, beyond the key it is kept under."

    def __init__(self, prog, st, parts, what, own):
        self.prog, self.st, self.parts = prog, st, parts
        self.what, self.own = what, own
        self.other, self.fields, self.calls = [], set(), set()
        self.seen = set()

    def why(self):
        if not self.other:
            return None
        return "the value kept depends on %s, which is not in the key" % \
            ", ".join(sorted({show(t)[:60] for t in self.other})[:3])

    def walk(self, t):
        t = strip(t)
        if t in self.parts or t in self.seen:
            return
        self.seen.add(t)
        kind = t[0]
        if kind == "p":
            if t == ME:
                if not self.own:
                    self.other.append(t)
                return
            if t[1] == "cls":
                return
            self.other.append(t)
        elif kind in ("attr", "getattr"):
            base = strip(t[1])
            name = name_of(t[2])
            if base[0] == "bin" and base[1] in "*/" and name in (
                    "units", "u", "dimensionality"):
                for x in base[2:4]:
                    if not is_const(x):
                        self.walk(("attr", strip(x), name))
                return
            if base == ME:
                if self.own:
                    self.fields.add(name)
                elif t != self.what:
                    self.other.append(t)
                return
            self.walk(base)
        elif kind == "call":
            f = t[1]
            if f[0] == "attr" and f[1] == ME:
                if self.own:
                    self.calls.add(f[2])
                else:
                    self.other.append(f)
            elif f[0] == "attr":
                self.walk(f[1])
            elif f[0] not in ("g", "b"):
                self.walk(f)
            for a in t[2]:
                self.walk(a)
            for _, a in t[3]:
                self.walk(a)
        elif kind == "obj":
            for e in self.st.objs.get(t[2], ()):
                for x in e[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        self.walk(x)
        elif kind in ("const", "g", "b", "missing", "unbound", "default",
                      "excval", "closure"):
            return
        else:
            for x in t[1:]:
                self.into(x)

    def into(self, x):
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str) and len(x) > 1 or x[0] in (
                    "rest", "free", "big"):
                self.walk(x)
            else:
                for y in x:
                    self.into(y)


def components(key, st):
    "(terms that a key holds, those it holds without their order)"
    parts, loose = [], []

    def add(t):
        t = strip(t)
        parts.append(t)
        if t[0] == "tuple":
            for x in t[1]:
                add(x)
        elif t[0] == "call" and t[1][0] == "b" and t[1][1] in COPIERS and \
                len(t[2]) == 1:
            x = strip(t[2][0])
            if t[1][1] in ("frozenset", "set", "sorted"):
                inner = x[1] if x[0] == "tuple" else [
                    e[1] for e in st.objs.get(x[2], ())
                    if e[0] == "item"] if x[0] == "obj" else []
                if len(inner) > 1 and x[0] == "tuple" or \
                        x[0] == "obj" and x[1] in ("list", "set") and \
                        len(inner) > 1:
                    loose.append([strip(y) for y in inner])
            add(x)
        elif t[0] == "obj":
            for e in st.objs.get(t[2], ()):
                if e[0] in ("item", "splat"):
                    add(e[1])
        elif t[0] == "fmt":
            for x in t[1]:
                if isinstance(x, tuple):
                    add(x)
        elif t[0] == "bin" and t[1] == "+":
            add(t[2])
            add(t[3])
    if key is not None:
        add(key)
    return parts, loose


def unordered(loose, val):
    for items in loose:
        a, b = items[:2]
        val = strip(val)
        if commuted(swap(val, a, b)) != commuted(val):
            return "the key is the same for %s and %s either way round" % (
                show(a), show(b))
    return None


def swap(t, a, b):
    if t == a:
        return b
    if t == b:
        return a
    return tuple(swap(x, a, b) if isinstance(x, tuple) else x for x in t)


def commuted(t):
    if not isinstance(t, tuple):
        return t
    t = tuple(commuted(x) for x in t)
    if t[:1] == ("bin",) and t[1] in ("*", "+"):
        return t[:2] + tuple(sorted(t[2:4], key=repr))
    # thing1 * thing2 where the key has their units
    return t


def weak(key):
    for x in subterms(key):
        if x[0] == "call" and x[1] in (("b", "id"), ("b", "hash"),
                                       ("b", "len")):
            return "different things may have the same %s" % show(x)[:60]
    return None


def gotten(v, c):
    for x in subterms(v):
        if x[0] == "sub" and strip(x[1]) == c:
            yield strip(x[2])
        elif x[0] == "call" and x[1][0] == "attr" and x[1][2] in (
                "get", "setdefault") and strip(x[1][1]) == c and x[2]:
            yield strip(x[2][0])


def same_key(k, key, st):
    if k == key:
        return True
    if k[0] == "call" and key[0] == "call" and k[1] == key[1] and \
            len(k[2]) == 1 == len(key[2]):
        a, b = strip(k[2][0]), strip(key[2][0])
        if a == b:
            return True
        if b[0] == "obj":
            entries = st.objs.get(b[2], ())
            return any(e[0] == "splat" and strip(e[1]) == a
                       for e in entries) and all(
                e[0] == "splat" or e[0] == "item" and is_const(e[1])
                for e in entries)
    if k[0] == "tuple" and key[0] == "tuple" and len(k[1]) == len(key[1]):
        return all(same_key(strip(a), strip(b), st)
                   for a, b in zip(k[1], key[1]))
    if {k[0], key[0]} == {"obj"}:
        return True
    return contains(key, lambda t: t[0] == "obj") or \
        contains(k, lambda t: t[0] == "obj")


def persistent(c):
    "A container that outlives the call: an attribute or a global."
    if c[0] == "g":
        return c[1].startswith("gpkit.")
    return c[0] == "attr" and c[1][0] in ("p", "g", "classof", "attr") and \
        not (c[1][0] == "p" and c[1][1] not in ("self", "cls"))


def flat(st):
    out = []

    def go(events):
        for e in events:
            if e.kind == "loop":
                for p in e.args[2]:
                    go(p[1])
            else:
                out.append(e)
    go(st.events)
    return out


def name_of(x):
    return x[2] if isinstance(x, tuple) else x


def made_here(t):
    if t[0] in ("new", "obj", "call", "loopout", "phi", "bin", "neg",
                "excval", "only"):
        return True
    return False


def shape(t):
    "A value without the numbers of what was made on the way."
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("obj",):
        return t[:2]
    if t[:1] == ("new",):
        return ("new", t[1], shape(t[2]), shape(t[3]))
    return tuple(shape(x) for x in t)


def only_difference(a, b, t):
    "Two paths that agree on every test they share but one."
    return all(b.facts[x] == y for x, y in a.facts.items()
               if x in b.facts and x != t)


def reads_mark(x, mark):
    return x[0] in ("attr", "getattr") and name_of(x[2]) == mark or \
        x[0] == "sub" and x[2] == K(mark) or \
        x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get" and \
        x[2] and x[2][0] == K(mark)


def terms_of(r):
    for st in r.states:
        yield from st.facts
    for _, v in r.ret:
        yield strip(v)
    for e in r.events:
        for a in e.args:
            if isinstance(a, tuple) and a and isinstance(a[0], str) and \
                    len(a) > 1:
                yield strip(a)


def changed(e):
    if e.kind in ("setitem", "delitem", "append", "extend"):
        return strip(e.args[0])
    if e.kind == "call" and e.args[0][0] == "attr" and \
            e.args[0][2] in CHANGES:
        return strip(e.args[0][1])
    return None


# ------------------------------------------------------------ local memos ----
def local_memos(chk):
    """`if x is None: x = f(y)` and `if k not in d: d[k] = f(y)` in a loop:
    y must not change while the loop runs (or be part of k)."""
    n = 0
    for q, f in sorted(chk.prog.functions.items()):
        if ".tests." in q or not isinstance(
                f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for loop in ast.walk(f.node):
            if not isinstance(loop, (ast.For, ast.While)):
                continue
            for x in ast.walk(loop):
                if isinstance(x, ast.If):
                    for name, key, value in kept(x):
                        if not outside(f.node, loop, name):
                            continue
                        n += 1
                        bad = varying(loop, x, name, key, value)
                        chk.ob("kept-through-loop", f, name, bad is None, bad,
                               x.lineno)
    chk.stats["values kept through loops"] = n


def kept(node):
    "(name, key or None, value expression) that an if-statement keeps."
    t = node.test
    neg = False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, neg = t.operand, not neg
    body = node.orelse if not neg and isinstance(t, (ast.Name,)) else node.body
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        op, left, right = t.ops[0], t.left, t.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot)) and \
                isinstance(right, ast.Constant) and right.value is None and \
                isinstance(left, ast.Name):
            body = node.body if isinstance(op, ast.Is) != neg else node.orelse
            yield from assigned(body, left.id)
            return
        if isinstance(op, (ast.In, ast.NotIn)) and \
                isinstance(right, ast.Name):
            body = node.body if isinstance(op, ast.NotIn) != neg \
                else node.orelse
            for s in body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Subscript) and \
                        isinstance(s.targets[0].value, ast.Name) and \
                        s.targets[0].value.id == right.id and \
                        ast.unparse(s.targets[0].slice) == ast.unparse(left):
                    yield right.id, left, expanded(s.value, body)
        return
    if isinstance(t, ast.Name):
        yield from assigned(body, t.id)


def assigned(body, name):
    for s in body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Name) and \
                s.targets[0].id == name and \
                not isinstance(s.value, ast.Constant):
            yield name, None, expanded(s.value, body)


def expanded(value, body):
    "An expression with the names assigned beside it written out."
    names = {s.targets[0].id: s.value for s in body
             if isinstance(s, ast.Assign) and len(s.targets) == 1 and
             isinstance(s.targets[0], ast.Name)}

    class Out(ast.NodeTransformer):
        def visit_Name(self, node):
            if node.id in names and isinstance(node.ctx, ast.Load):
                v = names.pop(node.id)
                return self.visit(ast.parse(ast.unparse(v),
                                            mode="eval").body)
            return node
    return Out().visit(ast.parse(ast.unparse(value), mode="eval").body)


def outside(fn, loop, name):
    "Given a first value before the loop, of nothing or an empty container."
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and s.lineno < loop.lineno and any(
                isinstance(t, ast.Name) and t.id == name for t in s.targets):
            v = s.value
            if isinstance(v, ast.Constant) and v.value is None or \
                    isinstance(v, ast.Dict) and not v.keys or \
                    isinstance(v, ast.Call) and not v.args and \
                    isinstance(v.func, ast.Name) and v.func.id == "dict":
                return True
    return False


def varying(loop, guard, name, key, value):
    text = ast.unparse(key) if key is not None else None

    class Drop(ast.NodeTransformer):
        def generic_visit(self, node):
            if text is not None and isinstance(node, ast.expr) and \
                    ast.unparse(node) == text:
                return ast.Constant(value=0)
            return super().generic_visit(node)
        visit_Name = visit_Attribute = visit_Subscript = generic_visit
    value = Drop().visit(value)
    bound = {n.id for n in ast.walk(value) if isinstance(n, ast.Name) and
             isinstance(n.ctx, ast.Store)}
    names = {n.id for n in ast.walk(value) if isinstance(n, ast.Name) and
             isinstance(n.ctx, ast.Load)} - bound
    inside = set(map(id, ast.walk(guard)))
    for s in ast.walk(loop):
        if id(s) in inside and not (
                isinstance(s, ast.Call)):
            pass
        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
            if s.id == name and id(s) not in inside:
                return None             # it is made anew
            if s.id in names and id(s) not in inside:
                return "it is kept, and %s differs from turn to turn" % s.id
        t = None
        if isinstance(s, (ast.Subscript, ast.Attribute)) and \
                isinstance(s.ctx, (ast.Store, ast.Del)):
            t = s.value
        elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) \
                and s.func.attr in CHANGES:
            t = s.func.value
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        if isinstance(t, ast.Name) and t.id in names and t.id != name:
            return "it is kept, and %s, which it was made from, is changed" \
                " as the loop goes on" % t.id
    return None


def addresses(chk, everyone):
    "An address says nothing about a thing that may be gone."
    for q, r in sorted(everyone.items()):
        for e in r.events:
            keys = []
            if e.kind in ("setitem", "getitem", "setdefault", "delitem"):
                keys = [e.args[1]]
            elif e.kind == "compare" and isinstance(e.args[0], tuple):
                keys = [e.args[0]]
            elif e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][2] in ("add", "get", "setdefault", "pop"):
                keys = list(e.args[1][:1])
            for k in keys:
                if isinstance(k, tuple) and contains(
                        k, lambda t: t[0] == "call" and t[1] == ("b", "id")):
                    chk.ob("no-addresses", r.func, show(strip(k))[:80], False,
                           "an object's address stands for the object, and"
                           " may be another's once that is gone", e.line)
    chk.ob("no-addresses", "gpkit", "%d functions" % len(everyone), True, "",
           0)
