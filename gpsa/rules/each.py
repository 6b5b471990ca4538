"""Coverage of collections: does every element of a source reach a sink?

Works on the outcomes of an Engine run in which loops were summarised: a loop
(or comprehension) over the source is one event that holds the paths of a
generic iteration.  An element is lost on a path that goes on (or leaves the
loop) without delivering it, or where only part of the source is looked at."""
from ..flow import K, contains, flat_events, is_const, subterms
from .common import shown

WHOLE = {"enumerate", "zip", "list", "tuple", "iter", "reversed", "sorted",
         "map"}
PART = {"filter", "set", "frozenset", "next", "min", "max"}
PARTG = ("itertools.islice", "itertools.takewhile", "itertools.dropwhile",
         "itertools.filterfalse", "itertools.compress")
SAME = {"values", "keys", "items", "copy", "tolist", "ravel", "flatten"}


def over(it, is_src):
    "How a term stands to a source: 'whole', 'part' or None."
    if is_src(it):
        return "whole"
    if it[0] == "call":
        f, args = it[1], it[2]
        inner = [over(a, is_src) for a in args]
        inner = [i for i in inner if i]
        if f[0] == "b" and inner:
            if f[1] in PART:
                return "part"
            if f[1] in WHOLE:
                return "part" if "part" in inner else "whole"
        if f[0] == "g" and inner:
            if f[1] in PARTG:
                return "part"
            if f[1].startswith("itertools.chain") or \
                    f[1] == "collections.OrderedDict":
                return inner[0]
        if f[0] == "attr" and f[2] in SAME:
            return over(f[1], is_src)
    if it[0] == "*" and len(it) == 2:
        return over(it[1], is_src)
    if it[0] == "attr" and it[2] == "flat":
        return over(it[1], is_src)
    if it[0] == "sub" and it[2][0] == "slice":
        got = over(it[1], is_src)
        if got and all(p == K(None) for p in it[2][1:]):
            return got
        if got and not all(is_const(p) or p[0] == "call" for p in it[2][1:]):
            return None      # a window that moves
        return "part" if got else None
    return None


def over_in(st, it, is_src):
    "Like over(), looking into collections built from the source as a whole."
    got = over(it, is_src)
    if got or it[0] != "obj":
        return got
    ents = st.objs.get(it[2], ())
    if len(ents) == 1 and ents[0][0] == "splat" and not ents[0][-1]:
        return over_in(st, ents[0][1], is_src)
    return None


def narrowed(term, is_src):
    "A sub-term that takes only part of the source."
    for t in subterms(term):
        if t[0] in ("sub", "call") and over(t, is_src) == "part":
            return t
    return None


def mentions(term, is_src):
    return contains(term, is_src)


def feeding(st, *values):
    "The collections whose elements end up in the values."
    out, todo = set(), []
    for v in values:
        todo.extend(t for t in subterms(v) if t[0] == "obj")
    while todo:
        o = todo.pop()
        if o in out:
            continue
        out.add(o)
        ents = st.objs.get(o[2], ())
        for e in ents:
            for t in e[1:-1]:
                todo.extend(x for x in subterms(t) if x[0] == "obj")
            for l in e[-1]:
                todo.extend(x for x in subterms(l[0]) if x[0] == "obj")
    return out


def all_loops(events):
    for ev in events:
        if ev.kind == "loop":
            yield ev
            for p in ev.args[2]:
                yield from all_loops(p[1])


class Coverage:
    """delivers(event) says that an event hands an element on; exempt(facts)
    that a path with these facts may go without."""

    def __init__(self, is_src, delivers, exempt=None, comps=(),
                 empty_ok=False):
        self.empty_ok = empty_ok    # elements may be empty themselves
        self.is_src, self.delivers = is_src, delivers
        self.exempt = exempt or (lambda facts: False)
        self.comps = {o[2] for o in comps}
        self.problems, self.covering = [], 0

    def comp_src(self, ev, st):
        for e in st.objs.get(ev.args[0][1][2], ()):
            for l in e[-1]:
                got = over(l[0], self.is_src)
                if got:
                    return got
        return None

    def path_delivers(self, events, facts):
        for ev in events:
            if ev.kind == "loop":
                if ev.args[0][0] == "comp":
                    if ev.args[0][1][2] in self.comps and \
                            any(p[0] == "next" for p in ev.args[2]):
                        return True
                    # the deliveries made while it is built
                    if self.loop_delivers(ev):
                        return True
                elif self.loop_delivers(ev):
                    return True
            elif self.delivers(ev):
                return True
        return False

    def loop_delivers(self, ev):
        return any(self.path_delivers(p[1], p[2]) for p in ev.args[2]
                   if p[0] != "raise")

    def inspect(self, ev, depth=0):
        "Every path of a delivering loop must deliver."
        for p in ev.args[2]:
            kind, events, facts = p[:3]
            if kind == "raise":
                continue
            fd = dict(facts)
            if self.exempt(fd):
                continue
            if not self.path_delivers(events, facts):
                if self.empty_ok and any(t[0] == "elem" and b is False
                                         for t, b in facts):
                    continue   # nothing to hand on
                self.problems.append((ev.line, "an iteration goes on without"
                                      " handing its element on%s" % why(fd)))
            elif kind in ("break", "return"):
                self.problems.append((ev.line, "the loop stops early%s" %
                                      why(fd)))
            for inner in events:
                if inner.kind == "loop" and inner.args[0][0] != "comp" and \
                        self.loop_delivers(inner) and not any(
                            e.kind != "loop" and self.delivers(e)
                            for e in events):
                    self.inspect(inner, depth + 1)

    def run(self, st, events):
        for ev in all_loops(events):
            it = ev.args[0]
            if it[0] == "comp":
                if it[1][2] not in self.comps:
                    if self.comp_src(ev, st) and self.loop_delivers(ev):
                        self.covering += 1
                    continue
                got = self.comp_src(ev, st)
                if not got:
                    continue
                self.covering += 1
                if got == "part":
                    self.problems.append((ev.line, "only part is gone"
                                          " through"))
                for p in ev.args[2]:
                    if p[0] == "skip" and not self.exempt(dict(p[2])):
                        self.problems.append((
                            ev.line, "elements are left out%s" %
                            why(dict(p[2]))))
                continue
            got = over_in(st, it, self.is_src)
            if not got or not self.loop_delivers(ev):
                continue
            self.covering += 1
            if got == "part":
                self.problems.append((ev.line, "only part is gone through: %s"
                                      % shown(it, 80)))
            self.inspect(ev)
        return self


def why(facts):
    said = ["%s%s" % ("" if b else "not ", shown(t, 70))
            for t, b in sorted(facts.items(), key=lambda x: repr(x[0]))
            if t[0] != "isinstance"]
    return " (when %s)" % " and ".join(said[:3]) if said else ""


def into(objs):
    "Delivery: an element is put into one of these collections."
    objs = set(objs)
    ids = {o[2] for o in objs}

    def delivers(ev):
        return ev.kind in ("append", "extend") and ev.args[0][0] == "obj" \
            and ev.args[0][2] in ids
    return delivers


def yields(ev):
    return ev.kind in ("yield", "yieldfrom")


def calls(method):
    def delivers(ev):
        return ev.kind == "call" and ev.args[0][0] == "attr" \
            and ev.args[0][2] == method
    return delivers


def stores(base_pred):
    "Delivery: an item is set on a collection for which the predicate holds."
    def delivers(ev):
        return ev.kind in ("setitem", "set") and base_pred(ev.args[0])
    return delivers


def collected(st, events, value, is_src, exempt=None, also=None, more=()):
    """Does every element of the source reach `value`?  [(line, why)] and the
    number of constructs that carry it."""
    objs = feeding(st, value) | set(more)
    put = into(objs)
    delivers = put if also is None else (lambda ev: put(ev) or also(ev))
    cov = Coverage(is_src, delivers, exempt, comps=objs).run(st, events)
    terms = [value]
    carrying = {o for o in objs if any(
        over(l[0], is_src) for e in st.objs.get(o[2], ()) for l in e[-1])}

    def source(t):
        return is_src(t) or t in carrying
    for o in objs:
        for e in st.objs.get(o[2], ()):
            terms.extend(t for t in e[1:-1])
            if not e[-1]:
                for t in e[1:-1]:
                    if e[0] == "splat" and over(t, is_src):
                        cov.covering += 1
    if over(value, is_src):
        cov.covering += 1
    for t in subterms(value):
        if t[0] == "call" and any(over(a, is_src) for a in t[2]):
            cov.covering += 1
    for t in terms:
        n = narrowed(t, source)
        if n is not None:
            cov.problems.append((None, "only part of it is used: %s" %
                                 shown(n, 80)))
    return cov


def reaches(st, events, is_src, delivers, exempt=None):
    """Coverages showing that each element is delivered: straight from a loop
    over the source, or by way of a collection the loop builds first."""
    direct = Coverage(is_src, delivers, exempt).run(st, events)
    if direct.covering:
        return [direct]
    carrying = {ev.args[0] for ev in all_loops(events)
                if ev.args[0][0] == "obj" and direct.loop_delivers(ev)}
    if not carrying:
        return [direct]
    out = [collected(st, events, ("tuple", tuple(carrying)), is_src,
                     exempt=exempt, also=delivers)]
    for o in carrying:
        out.append(Coverage(lambda t, o=o: t == o, delivers).run(st, events))
    return out
