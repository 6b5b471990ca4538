"""The updating of a sequential program in place: each approximated constraint's
terms go to that constraint's own places in the program's data (terms, sizes,
rows, columns and values of the matrix in step), and the matrix entries that
the new terms no longer need are all put out."""
from ..flow import NONE, K, contains, flat_events, subterms
from . import algebra
from .common import shown

PARTS = ("row", "col", "data")


def part(t, names=PARTS):
    "The name of the program's list that a term is, e.g. A.row."
    return t[2] if t[0] == "attr" and t[2] in names else None


def path_steps(events):
    "(path, its own events with those of loops inside it)."
    for e in events:
        if e.kind == "loop":
            for p in e.args[2]:
                if p[0] != "raise":
                    yield e, p, list(p[1])
                    yield from path_steps(p[1])


def same(a, b):
    return a == b or algebra.equal(a, b)


def updated(chk, f, outs):
    bad, n = [], 0
    for st, _ in outs.ret:
        for loop, p, evs in path_steps(st.events):
            line = loop.line
            hm = [e for e in evs if e.kind == "setitem" and
                  part(e.args[0], ("hmaps",))]
            if hm:
                n += 1
                bad += together(evs, hm[-1])
                bad += leftovers(st, evs)
            bad += positions(evs, line)
    chk.ob("entries-updated", f, "the approximated constraints' places",
           not bad, bad[0][1] if bad else None, bad[0][0] if bad else None)
    chk.stats["updates of a constraint's places"] = n


def together(evs, hm):
    "The constraint's number is one and the same for all of its places."
    out, x = [], hm.args[1]
    for e in flat_events(evs):
        for t in e.args[:1] if e.kind in ("getitem", "setitem") else ():
            if part(t, ("m_idxs", "a_idxs")) and not same(e.args[1], x):
                out.append((e.line, "the terms of number %s are put into the"
                            " places of number %s" % (
                                shown(x, 50), shown(e.args[1], 50))))
        if e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] in ("pop", "remove", "clear") and \
                e.args[0][1][0] == "sub" and \
                part(e.args[0][1][1], ("a_idxs",)):
            out.append((e.line, "the list of a constraint's entries is used"
                        " up, so that the next update does not find them"))
    return out


def leftovers(st, evs):
    "Loops that put entries out go through all that are left."
    out, seen = [], False
    for e in evs:
        if e.kind != "loop":
            continue
        ways = [p for p in e.args[2] if p[0] not in ("raise",)]
        zero = [p for p in ways if any(
            x.kind == "setitem" and part(x.args[0]) == "data" and
            x.args[2] in (K(0), K(0.0)) for x in p[1])]
        if not zero:
            continue
        seen = True
        for t in subterms(e.args[0]):
            if t[0] == "sub" and t[2][0] == "slice" and \
                    t[2][1:] != (NONE, NONE, NONE) or t[0] == "call" and \
                    t[1] == ("g", "itertools.islice"):
                out.append((e.line, "only part of the entries that are left"
                            " over is put out: %s" % shown(t, 60)))
        if len(zero) < len(ways) or any(p[0] in ("break", "return")
                                        for p in zero):
            out.append((e.line, "not every entry left over is put out"))
    taken = any(x.kind == "call" and x.args[0][0] == "attr" and
                x.args[0][2] == "pop" and x.args[0][1][0] == "obj" and
                any(contains(y, lambda t: part(t, ("a_idxs",)) is not None)
                    for en in st.objs.get(x.args[0][1][2], ())
                    for y in en[1:-1]) for x in flat_events(evs))
    if taken and not seen:
        out.append((evs[0].line, "entries left over from before stay in the"
                    " program"))
    return out


def positions(evs, line):
    "Terms, sizes and matrix entries of one monomial are in step."
    out = []
    at, setting, added = {}, {}, {}
    for i, e in enumerate(evs):
        if e.kind == "setitem":
            a = part(e.args[0], ("exps", "cs"))
            if a:
                at[a] = e.args[1]
            a = part(e.args[0])
            if a:
                setting[a] = (e, e.args[1])
        elif e.kind == "call" and e.args[0][0] == "attr" and \
                e.args[0][2] == "append" and part(e.args[0][1]) and e.args[1]:
            added[part(e.args[0][1])] = (i, e)
    if len(at) == 2 and not same(at["exps"], at["cs"]):
        out.append((line, "exponents and coefficient of a term are put at"
                    " different places"))
    if at:                      # the matrix's rows are those of the terms
        place = at.get("exps") or at.get("cs")
        for e in flat_events(evs):
            if e.kind == "setitem" and part(e.args[0]) == "row" and \
                    e.args[2] not in (K(0),):
                row = e.args[2]
            elif e.kind == "call" and e.args[0][0] == "attr" and \
                    e.args[0][2] == "append" and e.args[1] and \
                    part(e.args[0][1]) == "row":
                row = e.args[1][0]
            else:
                continue
            if not same(row, place):
                out.append((e.line, "a term's row of the matrix is %s, its"
                            " place %s" % (shown(row, 50), shown(place, 50))))
    if setting and not added:
        if set(setting) != set(PARTS) and "data" in setting and \
                setting["data"][0].args[2] in (K(0), K(0.0)):
            return out          # an entry that is put out
        if set(setting) != set(PARTS):
            out.append((line, "an entry's %s is left as it was" % " and ".join(
                sorted(set(PARTS) - set(setting)))))
        if any(not same(x, y) for _, x in setting.values()
               for _, y in setting.values()):
            out.append((line, "row, column and value of an entry are put at"
                        " different places"))
    if added:
        if set(added) != set(PARTS):
            out.append((line, "a new entry has no %s" % " and ".join(
                sorted(set(PARTS) - set(added)))))
        kept = [(i, e) for i, e in enumerate(evs) if e.kind == "call" and
                e.args[0][0] == "attr" and e.args[0][2] == "append" and
                e.args[0][1][0] == "sub" and
                part(e.args[0][1][1], ("a_idxs",)) and e.args[1]]
        if not kept:
            out.append((line, "a new entry is not found at the next update"))
        for i, e in kept:
            out += place_kept(evs, i, e, added)
    for val, key in ((setting, 2), (added, None)):
        got = {a: (v[0].args[2] if key else v[1].args[1][0])
               for a, v in val.items()}
        if set(got) >= {"col", "data"}:
            why = in_step(got["col"], got["data"])
            if why:
                out.append((line, why))
    return out


def in_step(col, data):
    "The column is that of the variable whose exponent the value is."
    keys = [t for t in subterms(col) if t[0] == "key"]
    vals = [t for t in subterms(data) if t[0] == "val"]
    if keys and vals and data == vals[0] and col[0] == "sub" and \
            col[2] == keys[0] and keys[0][1] != vals[0][1]:
        return "an entry's column and value are of different variables"
    return None


def place_kept(evs, i, e, added):
    t = e.args[1][0]
    minus = t[0] == "bin" and t[1] == "-" and t[3] == K(1)
    base = t[2] if minus else t
    if base[0] != "call" or base[1] != ("b", "len") or not base[2]:
        return []
    a = part(base[2][0])
    if a is None or a not in added:
        return []
    before = [j for j, x in enumerate(evs[:i + 1]) if x.kind == "call" and
              x.args[0] == ("b", "len") and x.args[1] == base[2]]
    if not before:
        return []
    if (before[-1] > added[a][0]) != minus:
        return [(e.line, "a new entry is remembered at the place next to its"
                 " own")]
    return []


# ------------------------------------------------ what can be modified ----
def modifiable(chk, f, outs):
    "Every entry of the approximated constraints is on the list of a_idxs."
    bad, n = None, 0
    for st, _ in outs.ret:
        lists = {t for k, t in st.heap.items() if k[1] == ".a_idxs"}
        for loop, p, evs in path_steps(st.events):
            if not any(adds(e, lists) for q in loop.args[2]
                       for e in flat_events(q[1])):
                continue
            n += 1
            if any(adds(e, lists) for e in flat_events(evs)):
                continue
            why = excluded(dict(p[2]))
            if why:
                bad = (loop.line, why)
    chk.ob("entries-updated", f, "entries that can be modified", bad is None,
           bad and bad[1], bad and bad[0])


def adds(e, lists):
    return e.kind == "call" and e.args[0][0] == "attr" and \
        e.args[0][2] == "append" and e.args[0][1][0] == "sub" and \
        e.args[0][1][1] in lists or e.kind == "append" and \
        e.args[0][0] == "sub" and e.args[0][1] in lists


def excluded(facts):
    """None if a path that leaves an entry out knows that it is the cost's or
    comes after the approximated constraints; else what it leaves out."""
    def row(t):
        return contains(t, lambda x: x[0] == "elem" and
                        part(x[1], ("row",)) is not None) and \
            t[0] in ("elem", "val")

    def first(t):
        return t[0] == "sub" and part(t[1], ("k",)) and t[2] == K(0)

    def last(t):
        return t[0] == "call" and t[1] == ("b", "sum") and len(t[2]) == 1 \
            and t[2][0][0] == "sub" and part(t[2][0][1], ("k",)) and \
            t[2][0][2][0] == "slice"
    bounds = []
    for t, b in facts.items():
        while t[0] == "not":
            t, b = t[1], not b
        if t[0] != "cmp" or t[1] not in ("<", "<="):
            continue
        op, lo, hi = t[1:4]
        if not b:
            op, lo, hi = ("<=" if op == "<" else "<"), hi, lo
        if row(lo) and first(hi):
            if op == "<":
                return None
            bounds.append("the first entries of the first one")
        elif row(hi) and last(lo):
            stop = lo[2][0][2][2]
            if stop[0] == "bin" and any(
                    x[0] == "call" and x[1] == ("b", "len")
                    for x in subterms(stop)):
                ln = [x for x in subterms(stop) if x[0] == "call" and
                      x[1] == ("b", "len")][0]
                if same(stop, ("bin", "+", K(1), ln)):
                    return None
                if same(stop, ln):
                    return "the last one's entries are left out"
            elif stop[0] == "call" and stop[1] == ("b", "len"):
                return "the last one's entries are left out"
            return None
    if bounds:
        return "entries of approximated constraints are left out: %s" % \
            bounds[0]
    return None
