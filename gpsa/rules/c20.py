"""C20: ranking functions.  Every open-ended loop is executed symbolically for
one arbitrary pass from an arbitrary state, and each path of the pass that
comes back to the test has to make one and the same measure progress: an
integer (lengths included) that the test bounds and the path moves by a
definite step, an iterator the path advances, a file the path reads from, a
flag that only the removal of an element sets, a chain of parents, or an index
running along a sequence the pass leaves alone.  For sequential solves, the
number of programs made is bounded by the caller's limit on every path of the
outer loop, and the inner solves per pass are counted."""
import ast

from ..flow import NONE, Engine, K, contains, flat_events, \
    is_const, is_new, strip, subterms
from ..model import AnalysisBroken, walk_shallow
from . import algebra, each
from .allrun import Each as Pass
from .allrun import isolated
from .c07 import sequences, solve_functions
from .c10 import outcomes
from .common import shown

TECHNIQUE = "ranking functions over symbolic loop passes; counted inner solves"
ASSUMPTIONS = [
    "files end, iterators of arrays are finite, chains of parents are acyclic"
    " once each link is made to an older object",
    "recursion (autosweep refinement, nested sets) is bounded by the input's"
    " nesting, not examined here"]
C = "gpkit.constraints."
LIMIT = ("p", "iteration_limit")
LOCALSOLVE = C + "sgp.SequentialGeometricProgram.localsolve"
REMOVES = ("remove", "pop", "discard", "popitem", "clear",
           "difference_update")
GROWS = ("append", "extend", "insert", "add", "update", "appendleft")


def run(chk):
    for f in sorted(chk.prog.all_functions(), key=lambda f: f.qual):
        if ".tests." in f.qual or isinstance(f.node, ast.Lambda):
            continue
        for n in walk_shallow(f.node):
            if isinstance(n, ast.While):
                open_ended(chk, f, n)
            elif isinstance(n, ast.For):
                growing(chk, f, n)
    sequential(chk)
    once(chk)
    links(chk)
    chk.need("progress", 8)
    chk.need("limit", 2)


# ------------------------------------------------------------ one pass ------
def passes_of(states, node, f):
    "(state, loop event) for each analysis of the loop."
    lid = (f.qual, node.lineno, node.col_offset)
    for st in states:
        for ev in each.all_loops(st.events):
            if ev.args[1] == lid:
                yield st, ev


class Turn:
    "A path of a pass that comes back to the test."

    def __init__(self, path, loopid, st):
        self.events, self.facts = path[1], dict(path[2])
        self.carried = dict(path[3])
        self.loopid, self.st = loopid, st
        self.all_events = list(flat_events(self.events))

    def var(self, t):
        return t[0] == "loopvar" and len(t) == 3 and t[2] == self.loopid

    def after(self, t):
        "The value of a loop variable when the pass has ended."
        if self.var(t):
            return self.carried.get(t[1], t)
        return None


def at_end_of(t, turn):
    "A term with every loop variable given the value the pass leaves."
    r = turn.after(t)
    if r is not None:
        return r
    return tuple(at_end_of(x, turn) if isinstance(x, tuple) and x
                 and x != turn.loopid else x for x in t)


def size(t):
    "The length of a value as a polynomial."
    if is_const(t) and isinstance(t[2], (str, tuple, bytes)):
        return algebra.const(len(t[2]))
    if t[0] == "bin" and t[1] == "+":
        return algebra.add(size(t[2]), size(t[3]))
    if t[0] == "sub" and t[2][0] == "slice" and t[2][2] == NONE and \
            t[2][3] == NONE and is_const(t[2][1]) and \
            isinstance(t[2][1][2], int) and t[2][1][2] >= 0:
        return algebra.add(size(t[1]), algebra.const(t[2][1][2]), -1)
    return algebra.atom(("len", t))


def grown(events, t):
    "Adds to, and takes from, a collection in a pass: (adds, removes)."
    adds = removes = 0
    for ev in events:
        if ev.kind in ("append", "extend", "setdefault") and ev.args[0] == t:
            adds += 1
        elif ev.kind == "call" and ev.args[0][0] == "attr" and \
                ev.args[0][1] == t:
            adds += ev.args[0][2] in GROWS
            removes += ev.args[0][2] in REMOVES
        elif ev.kind == "delitem" and ev.args[0] == t:
            removes += 1
    return adds, removes


def opened(x):
    "Lengths stand for themselves in a normal form."
    if x[0] == "call" and x[1] == ("b", "len") and len(x[2]) == 1:
        return ("length", x[2][0])
    return None


def measure(t, turn, at_end):
    "A bounded quantity as a polynomial, before or after the pass."
    n, d = algebra.ratio(at_end_of(t, turn) if at_end else t, opened)
    if d != algebra.const(1):
        return None
    out = algebra.Poly()
    for m, c in n.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "length":
            inner = m[0][0][1]
            p = size(inner)
            if at_end:
                a, r = grown(turn.all_events, inner)
                if a and r:
                    return None
                p = algebra.add(p, algebra.const(a - r))
            out = algebra.add(out, algebra.times(algebra.const(c), p))
        else:
            q = algebra.Poly()
            q[m] = c
            out = algebra.add(out, q)
    return out


def distances(turn):
    "Quantities the path knows to be positive: bound - value."
    for t, b in turn.facts.items():
        if t[0] == "not":
            t, b = t[1], not b
        if t[0] == "cmp" and t[1] in ("<", "<="):
            lo, hi = (t[2], t[3]) if b else (t[3], t[2])
            yield ("bin", "-", hi, lo)


def moved(d, turn):
    "What a pass adds to a quantity (a polynomial), or None."
    try:
        before, then = measure(d, turn, False), measure(d, turn, True)
    except (OverflowError, ZeroDivisionError, RecursionError):
        return None
    if before is None or then is None:
        return None
    return algebra.add(then, before, -1)


class Ints:
    name = "a bounded number"

    def steps(self, p, turn):
        "True when a polynomial is sure to be at most a negative number."
        if not p:
            return False
        for m, c in p.items():
            if m == ():
                if c >= 0:
                    return False
            elif not (c < 0 and all(x >= 1 and self.positive(a, turn)
                                    for a, x in m)):
                return False
        return True

    @staticmethod
    def positive(atom, turn):
        "What a name was given before the loop is a positive number."
        loops = list(each.all_loops(turn.st.events))
        for v in turn.carried.values():
            for x in subterms(v):
                if strip(x) == atom:
                    return above_zero(x, loops)
        return False

    def progress(self, turns):
        found, back = {}, set()
        for i, turn in enumerate(turns):
            for d in distances(turn):
                p = moved(d, turn)
                if p is None:
                    continue
                key = algebra.frozen(measure(d, turn, False))
                if self.steps(p, turn):
                    found.setdefault(key, set()).add(i)
                elif contains(d, turn.var) and (
                        not p or all(c >= 0 for c in p.values())):
                    back.add((key, i))
        best = max(found.values(), key=len, default=None)
        if best is None:
            whole = {k for k, _ in back if
                     all((k, i) in back for i in range(len(turns)))}
            if whole and turns:
                return set(), "moves away from, or leaves alone, the bound" \
                    " that the test compares with"
            return None
        return best, "does not bring the tested number nearer its bound"


def above_zero(t, loops, depth=0):
    if depth > 4:
        return False
    if is_const(t):
        return isinstance(t[2], (int, float)) and t[2] > 0
    if t[0] == "loopout":
        _, name, lid, _, init, vals = t
        if not above_zero(init, loops, depth + 1):
            return False
        var = ("loopvar", name, lid)
        for ev in loops:
            if ev.args[1] != lid:
                continue
            for p in ev.args[2]:
                if len(p) < 4:
                    continue
                v = dict(p[3]).get(name)
                if v is None or above_zero(v, loops, depth + 1):
                    continue
                if not any(at_least(f, b, v, var) for f, b in p[2]):
                    return False
        return True
    return False


def at_least(t, b, value, bound):
    "The fact says that value >= bound."
    if t[0] == "not":
        t, b = t[1], not b
    if t[0] != "cmp" or t[1] not in ("<", "<="):
        return False
    return (t[2], t[3]) == ((bound, value) if b else (value, bound))


def contexts(fnode, node):
    "The statement lists around a loop, up to the one holding it, inwards out."
    out = [[node]]

    def visit(n):
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(n, field, None)
            if not isinstance(stmts, list):
                continue
            for i, s in enumerate(stmts):
                if any(x is node for x in ast.walk(s)):
                    out.append(stmts[:i+1])
                    visit(s)
        for h in getattr(n, "handlers", ()):
            visit(h)
    visit(fnode)
    return out[:1] + out[:0:-1]


class Iterator:
    "An array iterator that is asked whether it has finished."
    name = "an iterator"

    def progress(self, turns):
        its = [{t[1] for t, b in turn.facts.items()
                if t[0] == "attr" and t[2] == "finished" and b is False}
               for turn in turns]
        if not all(its):
            return None
        ok = set()
        for i, turn in enumerate(turns):
            for ev in turn.all_events:
                if ev.kind == "call" and ev.args[0][0] == "attr" and \
                        ev.args[0][2] in ("iternext", "__next__") and \
                        ev.args[0][1] in its[i]:
                    ok.add(i)
                if ev.kind == "call" and ev.args[0] == ("b", "next") and \
                        ev.args[1] and ev.args[1][0] in its[i]:
                    ok.add(i)
        # an advance must not sit in a nested loop that may not be entered
        for i, turn in enumerate(turns):
            if i in ok and not any(
                    ev.kind == "call" and (
                        ev.args[0][0] == "attr" and ev.args[0][1] in its[i]
                        or ev.args[0] == ("b", "next"))
                    for ev in turn.events):
                ok.discard(i)
        return ok, "does not advance the iterator"


class Reading:
    "A line read on each pass, with a test that the end of a file fails."
    name = "a file"

    def progress(self, turns):
        names = {n for turn in turns for n, v in turn.carried.items()
                 if reads(v)}
        best = None
        for n in sorted(names):
            ok, why = set(), "does not read on"
            for i, turn in enumerate(turns):
                v = turn.carried.get(n)
                if v is None or not reads(v):
                    continue
                var = ("loopvar", n, turn.loopid)
                if any(at_end(t, b, x, turn.st) for x in (var, v)
                       for t, b in turn.facts.items()):
                    ok.add(i)
                else:
                    why = "would go on at the end of the file"
            if best is None or len(ok) > len(best[0]):
                best = ok, why
        return best


def reads(v):
    return v[0] == "call" and v[1][0] == "attr" and v[1][2] == "readline" \
        or v[0] == "call" and v[1] == ("b", "next") and len(v[2]) == 2


def at_end(t, b, var, st):
    "The fact cannot be true of an empty line."
    v = empty_truth(t, var, st)
    return v is not None and v is not b


def empty_truth(t, var, st):
    if t[0] == "not":
        v = empty_truth(t[1], var, st)
        return None if v is None else not v
    if stripped(t, var):
        return False
    if t[0] == "in" and stripped(t[1], var) and t[2][0] == "tuple":
        return K("") in t[2][1]
    if t[0] == "in" and stripped(t[1], var) and t[2][0] == "obj" and \
            t[2][2] in st.objs:
        return K("") in {e[1] for e in st.objs[t[2][2]]}
    if t[0] == "in" and stripped(t[1], var) and is_const(t[2]):
        return "" in t[2][2]
    if t[0] == "cmp" and t[1] == "==":
        for a, c in ((t[2], t[3]), (t[3], t[2])):
            if stripped(a, var) and is_const(c):
                return c[2] == ""
    if t[0] == "cmp" and t[1] in ("<", "<="):
        n = {}
        for k in (2, 3):
            x = t[k]
            if x[0] == "call" and x[1] == ("b", "len") and \
                    stripped(x[2][0], var):
                n[k] = 0
            elif is_const(x) and isinstance(x[2], int):
                n[k] = x[2]
        if len(n) == 2:
            return n[2] < n[3] if t[1] == "<" else n[2] <= n[3]
    return None


def stripped(t, var):
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
            "strip", "rstrip", "lstrip", "lower", "split") and not t[3]:
        t = t[1][1]
    return t == var


class Flag:
    "A flag that is lowered on each pass, and raised where something goes."
    name = "a work set"

    def progress(self, turns):
        flags = None
        for turn in turns:
            here = {t for t, b in turn.facts.items() if b and turn.var(t)
                    and t[1] in turn.carried}
            flags = here if flags is None else flags & here
        out = None
        for flag in sorted(flags or (), key=repr):
            ok, why = set(), "keeps the flag up without removing anything"
            for i, turn in enumerate(turns):
                if self.falls(turn.carried[flag[1]], turn, turn.events):
                    ok.add(i)
            if out is None or len(ok) > len(out[0]):
                out = ok, why
        return out

    def falls(self, v, turn, events):
        if is_const(v) and not v[2]:
            return True
        if v[0] == "loopout":
            _, name, lid, _, init, vals = v
            if not (is_const(init) and not init[2]):
                return False
            for ev in each.all_loops(events):
                if ev.args[1] != lid:
                    continue
                for p in ev.args[2]:
                    if len(p) < 4:
                        continue
                    w = dict(p[3]).get(name)
                    if w is None or is_const(w) and not w[2]:
                        continue
                    if w[0] == "loopout" and w[4] == ("loopvar", name, lid):
                        if self.nested(w, p[1], turn):
                            continue
                    if not shrinks(p[1], turn.all_events):
                        return False
            return True
        return shrinks(events, turn.all_events)

    def nested(self, v, events, turn):
        "An inner loop raises the flag only where something goes."
        _, name, lid, _, _, _ = v
        for ev in each.all_loops(events):
            if ev.args[1] != lid:
                continue
            for p in ev.args[2]:
                if len(p) < 4:
                    continue
                w = dict(p[3]).get(name)
                if w is None or is_const(w) and not w[2]:
                    continue
                if w[0] == "loopout" and w[4] == ("loopvar", name, lid) and \
                        self.nested(w, p[1], turn):
                    continue
                if not shrinks(p[1], turn.all_events):
                    return False
        return True


def shrinks(events, whole):
    "Something is removed from a collection that the pass never adds to."
    for ev in events:
        t = None
        if ev.kind == "delitem":
            t = ev.args[0]
        elif ev.kind == "call" and ev.args[0][0] == "attr" and \
                ev.args[0][2] in REMOVES:
            t = ev.args[0][1]
        if t is None:
            continue
        adds, _ = grown(whole, t)
        adds += sum(1 for e in whole
                    if e.kind == "setitem" and e.args[0] == t)
        if not adds:
            return True
    return False


class Chain:
    "A name that follows a link."
    name = "a chain of links"

    def progress(self, turns):
        names = {n for turn in turns for n, v in turn.carried.items()
                 if self.link(v, n, turn)}
        for n in sorted(names):
            tested = all(any(contains(t, lambda x, turn=turn: x == (
                "loopvar", n, turn.loopid)) for t in turn.facts)
                         for turn in turns)
            if not tested:
                continue
            ok = {i for i, turn in enumerate(turns) if n in turn.carried
                  and self.link(turn.carried[n], n, turn)}
            return ok, "does not follow the link"
        return None

    @staticmethod
    def link(v, n, turn):
        var = ("loopvar", n, turn.loopid)
        return v[0] in ("attr", "getattr") and v[1] == var or (
            v[0] == "call" and v[1] == ("b", "getattr") and v[2]
            and v[2][0] == var)


class Along:
    "An index that the test uses in a sequence the pass leaves alone."
    name = "a position in a sequence"

    def progress(self, turns):
        out = None
        cands = set()
        for turn in turns:
            for t in turn.facts:
                for x in subterms(t):
                    if x[0] == "sub" and x[2][0] != "slice" and \
                            contains(x[2], turn.var) and \
                            not contains(x[1], turn.var):
                        cands.add((x[1], x[2]))
        for seq, idx in sorted(cands, key=repr):
            ok = set()
            for i, turn in enumerate(turns):
                try:
                    p = moved(idx, turn)
                except OverflowError:
                    continue
                a, r = grown(turn.all_events, seq)
                if p is not None and p and set(p) == {()} and \
                        p[()] > 0 and not a:
                    ok.add(i)
            if out is None or len(ok) > len(out[0]):
                out = ok, "does not move along the sequence"
        if out is not None and not out[0] and not all(
                any(contains(t, lambda x, turn=turn: x[0] == "sub" and
                             contains(x[2], turn.var)) for t in turn.facts)
                for turn in turns):
            return None
        return out


def idle(turn):
    "The pass changes nothing that a test could see."
    if turn.carried:
        tested = {x for t in turn.facts for x in subterms(t) if turn.var(x)}
        if not tested or any(x[1] in turn.carried for x in tested):
            return False
    for ev in turn.all_events:
        if ev.kind in ("set", "setitem", "append", "extend", "delitem",
                       "delattr", "setdefault", "aug", "yield", "yieldfrom",
                       "new"):
            return False
        if ev.kind == "call" and ev.args[0][0] != "b":
            return False
    return True


def open_ended(chk, f, node):
    chk.analysed(f)
    name = "while loop testing `%s`" % ast.unparse(node.test)[:80]
    verdict = None
    for stmts in contexts(f.node, node):
        try:
            _, states = isolated(chk.prog, f, stmts)
        except AnalysisBroken:
            break
        groups = {}
        for st, ev in passes_of(states, node, f):
            ts = [Turn(p, ev.args[1], st) for p in ev.args[2]
                  if p[0] in ("next", "continue")]
            if ts:
                groups.setdefault(ev.args, ts)
        turns = [t for ts in groups.values() for t in ts]
        if not turns:
            if verdict is None:
                return      # it never comes back to its test
            continue
        if sequential_loop(turns) and (f.qual == LOCALSOLVE or is_new(f)):
            return
        verdicts = [judge(ts) for ts in groups.values()]
        verdict = next((v for v in verdicts if v and not v[0]), None) or (
            None if None in verdicts else verdicts[0])
        if verdict and verdict[0]:
            break
    if verdict is None and turns and sequential_loop(turns):
        verdict = False, "makes another solve without getting nearer to a" \
            " limit", None
    if verdict is None:
        chk.notes.append("undecided: %s in %s" % (name, f.qual))
        return
    ok, what, path = verdict
    if ok:
        chk.ob("progress", f, name + ": " + what, True)
    else:
        chk.ob("progress", f, name, False, "a path of the pass %s, and could"
               " be taken for ever" % what, line=node.lineno, path=path)


def judge(turns):
    "(True, measure, None), (False, why, path) or None when undecided."
    best = None
    for r in (Iterator(), Reading(), Flag(), Ints(), Chain(), Along()):
        got = r.progress(turns)
        if got is None:
            continue
        ok, why = got
        if len(ok) == len(turns):
            return True, r.name, None
        if best is None or len(ok) > len(best[0]):
            best = ok, why
    if best is not None:
        i = min(set(range(len(turns))) - best[0])
        return False, best[1], [each.why(turns[i].facts)]
    if any(idle(t) for t in turns):
        return False, "changes nothing that the test depends on", None
    return None


def sequential_loop(turns):
    "A loop of solves: judged by the iteration limit instead."
    return any(solves(ev) for turn in turns for ev in turn.all_events)


def growing(chk, f, node):
    "A for loop must not add to what it goes through."
    it = ast.unparse(node.iter)
    if not isinstance(node.iter, (ast.Name, ast.Attribute, ast.Subscript)):
        return
    for n in ast.walk(ast.Module(body=node.body, type_ignores=[])):
        bad = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ("append", "extend", "insert") and \
                ast.unparse(n.func.value) == it:
            bad = n
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and \
                ast.unparse(n.target) == it and \
                isinstance(n.value, (ast.List, ast.ListComp)):
            bad = n
        if bad is not None:
            ends = any(isinstance(x, (ast.Break, ast.Return))
                       for y in node.body for x in ast.walk(y))
            chk.ob("iterates", f, "for loop over `%s`" % it, ends,
                   "the loop adds to the sequence it goes through",
                   line=bad.lineno)
            return
    chk.ob("iterates", f, "for loop over `%s`" % it, True)


# ---------------------------------------------------- sequential solves -----
def solves(ev):
    return ev.kind == "call" and ev.args[0][0] == "attr" and \
        ev.args[0][2] == "solve"


def only_param(t, name):
    "The term is the parameter plus a number."
    try:
        n, d = algebra.ratio(t)
    except (OverflowError, ZeroDivisionError):
        return False
    rest = dict(n)
    c = rest.pop(((("p", name), 1),), None)
    return c == 1 and set(rest) <= {()} and d == algebra.const(1)


def counted(turn, st0):
    """The path has established that a number below the limit grows by one
    each pass, from zero: returns (ok, why)."""
    why = "the number of solves made is not compared with the limit"
    for t, b in turn.facts.items():
        if t[0] == "not":
            t, b = t[1], not b
        if t[0] != "cmp" or t[1] not in ("<", "<=") or \
                not contains(t, lambda x: x == LIMIT):
            continue
        lo, hi = (t[2], t[3]) if b else (t[3], t[2])
        if not only_param(hi, "iteration_limit"):
            why = "the number of solves is compared with `%s`, not with the" \
                " caller's limit" % shown(hi, 60)
            if contains(lo, lambda x: x == LIMIT):
                why = "the limit is a lower bound, not an upper one"
            continue
        p = moved(("bin", "-", hi, lo), turn)
        if p is not None and set(p) == {()} and p[()] <= -1:
            if starts(lo, turn):
                return True, ""
            why = "the count does not start from zero for each call"
        else:
            why = "a pass does not add to the count that is compared with" \
                " the limit"
    return False, why


def starts(lo, turn):
    "The counted collection or number is made afresh before the loop."
    for x in subterms(lo):
        if x[0] == "call" and x[1] == ("b", "len") and len(x[2]) == 1:
            return x[2][0][0] == "obj" and not replaced(x[2][0], turn)
        if turn.var(x):
            return True
    return False


def replaced(obj, turn):
    "The attribute that holds a collection is given another one in the pass."
    held = {(e.args[0], e.args[1]) for e in turn.st.events
            if e.kind == "set" and e.args[2] == obj}
    return any(e.kind == "set" and (e.args[0], e.args[1]) in held
               and e.args[2] != obj for e in turn.all_events)


def bounded_for(it):
    return it[0] == "call" and it[1] == ("b", "range") and it[2] and \
        only_param(it[2][-1] if len(it[2]) < 3 else it[2][1],
                   "iteration_limit")


def sequential(chk):
    qual = LOCALSOLVE
    f, eng, outs = outcomes(chk, qual)
    n, done = 0, set()
    bad = inner = None
    line = None
    for st, _ in list(outs.ret) + list(outs.exc):
        for ev in each.all_loops(st.events):
            if ev.args[1] in done and len(done) > 3:
                continue
            for p in ev.args[2]:
                made = [e for e in p[1] if solves(e)]
                deep = [e for e in flat_events(p[1]) if solves(e)]
                if not deep:
                    continue
                n += 1
                nested = [e for e in p[1] if e.kind == "loop" and any(
                    solves(x) for q in e.args[2] for x in flat_events(q[1]))]
                if nested:
                    if not all(bounded_for(e.args[0]) for e in nested):
                        continue        # the inner loop is judged itself
                if len(made) > 1:
                    inner, line = "a pass makes %i solves" % len(made), \
                        ev.line
                if p[0] not in ("next", "continue"):
                    continue
                if ev.args[0] != ("while",):
                    if not bounded_for(ev.args[0]):
                        bad, line = "the solves are made for each of `%s`" % \
                            shown(ev.args[0], 60), ev.line
                    continue
                ok, why = counted(Turn(p, ev.args[1], st), st)
                if not ok:
                    bad, line = "a path of the pass can be taken for ever:" \
                        " " + why, ev.line
    if not n:
        chk.notes.append("undecided: no loop of solves in " + qual)
        chk.ob("limit", f, "loop of solves", True)
    else:
        chk.ob("limit", f, "loop of solves", bad is None, bad, line=line)
    chk.ob("limit", f, "solves in a pass", inner is None, inner, line=line)


def once(chk):
    "A model's solve method makes one solve, a sweep one for each point."
    for f, _ in solve_functions(chk.prog):
        eng = Engine(chk.prog, Pass(chk.prog))
        outs = eng.run(f)
        chk.analysed(eng.stats["functions"])
        bad, line = None, None
        for st, _ in list(outs.ret) + list(outs.exc):
            for evs in sequences(st.events):
                made = [e for e in evs if e.kind == "call" and contains(
                    e.args[0], lambda t: t[0] == "call" and t[1] in (
                        ("p", "genfunction"), ("genfunction",)))]
                if len(made) > 1:
                    bad, line = "a path makes %i solves" % len(made), \
                        made[1].line
        chk.ob("limit", f, "solves on a path", bad is None, bad, line=line)


def links(chk):
    "Links that loops follow are never made to the object itself."
    for f in chk.prog.all_functions():
        if ".tests." in f.qual:
            continue
        for n in walk_shallow(f.node):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if isinstance(t, ast.Attribute) and t.attr in (
                        "parent", "generated_by"):
                    same = ast.unparse(t.value) == ast.unparse(n.value)
                    chk.ob("acyclic", f, ast.unparse(t), not same,
                           "an object is linked to itself: following the"
                           " link would never end", line=n.lineno)
