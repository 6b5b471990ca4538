"""C22: the record of how an expression was built.  Every operator method of
the expression classes is executed symbolically, the reflected ones with the
call they make inlined: the value each path returns must carry the method's
operation with the operands as the caller wrote them (receiver first, reflected
last), recorded on a fresh object, or be another operator's value which records
the same.  Every operation recorded anywhere must be one that the printer turns
into text, and each printing path must show that operation's sign between the
operands' texts in the recorded order, may leave an operand out only where its
text is "1", write the exponent's own digits, and group the operands that need
it."""
from ..flow import (Engine, K, contains, is_const, is_new, show, strip,
                    subterms)
from ..model import AnalysisBroken
from .allrun import everything
from .c18 import Every

TECHNIQUE = "symbolic terms: recorded construction of every operator path, and ordered leaves of its text"
ASSUMPTIONS = [
    "numpy hands a binary operation to an array's own method and not to the"
    " reflected method of an expression; numpy's in-place operators on an"
    " array of expressions are not constructions",
    "a coefficient printed as 1 is 1"]
S, O = "self", "other"
EXPECT = {
    "__add__": ("add", (S, O)), "__radd__": ("add", (O, S)),
    "__mul__": ("mul", (S, O)), "__rmul__": ("mul", (O, S)),
    "__truediv__": ("div", (S, O)), "__rtruediv__": ("div", (O, S)),
    "__sub__": ("sub", (S, O)), "__rsub__": ("sub", (O, S)),
    "__pow__": ("pow", (S, O)), "__neg__": ("neg", (S,)),
    "__getitem__": ("index", (S, O)),
    "sum": ("sum", (S,)), "prod": ("prod", (S,)),
}
ARITH = {"+": "add", "*": "mul", "/": "div", "-": "sub", "**": "pow"}
DUNDER = {k: v for k, v in EXPECT.items() if k.startswith("__")}
ARRAYS = ("NomialArray",)
SUPERS = dict(zip("⁰¹²³⁴⁵⁶⁷⁸⁹", range(10)))


def run(chk):
    all_ = {r.func.qual: r for r in everything(chk)}
    recorded = {}
    classes, setters = set(), []
    for q, r in sorted(all_.items()):
        here = [e for e in r.events if e.kind == "set" and e.args[1] == "ast"]
        if not here:
            continue
        setters.append(r.func)
        if r.func.cls is not None:
            classes.add(r.func.cls.qual)
        for e in here:
            t = record_of(e.args[2])
            if t is not None:
                recorded.setdefault(t[0], (r.func, e.line, t[1]))
    prog = chk.prog
    todo = set()
    for c in sorted(classes):
        for c2 in [c] + [getattr(x, "qual", x) for x in prog.subclasses(c)]:
            for name in EXPECT:
                f = prog.find_method(c2, name)
                if f is not None and f.qual.startswith("gpkit.nomials."):
                    todo.add((owner(prog, c2, f), name, f))
    seen = set()
    for c, name, f in sorted(todo, key=lambda x: (x[0], x[1])):
        operator(chk, c, name, f, setters)
        seen.add(f.qual)
    foreign(chk, all_)
    printers(chk, all_, recorded)
    equations(chk)
    groups(chk)
    chk.need("operation-recorded", 6)


UNGROUPED = {"addi": ((" + ",), (" - ",)), "mult": (("·", "*"), ("/",))}


def groups(chk):
    """Text is left ungrouped only where it was found to have no sum, and no
    product or quotient, outside of its groups (or to have nothing there), or
    where the caller said that one of these needs no grouping."""
    f = chk.prog.functions.get("gpkit.repr_conventions.parenthesize")
    if f is None or len(f.all_params()) != 3:
        chk.notes.append("undecided: no grouping of operands' text was found")
        return
    try:
        rets = Engine(chk.prog, Every(chk.prog)).run(f).ret
    except AnalysisBroken as e:
        chk.notes.append("undecided: %s (%s)" % (f.qual, e))
        return
    chk.analysed([f.qual])
    text = ("p", f.all_params()[0])

    def looked(st):
        "sign: whether it was found, by what the path has established"
        return {t[1][2]: (t[2], b) for t, b in st.facts.items()
                if t[0] == "in" and is_const(t[1]) and
                isinstance(t[1][2], str)}
    everywhere = {s for st, _ in rets for s in looked(st)}
    texts = {t for st, _ in rets for t, _ in looked(st).values()}
    for name, kinds in sorted(UNGROUPED.items()):
        if name not in f.all_params() or not any(
                s in everywhere for ss in kinds for s in ss):
            continue
        bad = None
        for st, v in rets:
            if strip(v) != text or st.facts.get(("p", name)) is False:
                continue
            found = looked(st)
            if any(st.facts.get(t) is False for t in texts):
                continue                # there is nothing outside of groups
            for ss in kinds:
                if not any(found.get(s, (0, True))[1] is False for s in ss):
                    bad = "text is left ungrouped though %s may be outside" \
                        " of its groups" % " or ".join(map(repr, ss))
        chk.ob("operation-printed", f, "grouping of " + (
            "sums" if name == "addi" else "products"), bad is None, bad)


def owner(prog, c, f):
    """The class to analyse a method for: its own, unless what it calls is
    defined further down."""
    own = f.cls.qual
    if not prog.is_subclass(c, own):
        return c
    for name in ("__add__", "__mul__"):
        if prog.find_method(own, name) is None:
            return c
    return own


# ---------------------------------------------------------------- records ----
def tuple_of(t):
    "Items of a term for a tuple, reversed or not."
    t = strip(t)
    if t[0] == "tuple":
        return list(t[1])
    if t[0] == "call" and t[1][0] == "b" and len(t[2]) == 1 and t[1][1] in (
            "tuple", "list", "reversed"):
        items = tuple_of(t[2][0])
        if items is not None and t[1][1] == "reversed":
            items = items[::-1]
        return items
    if t[0] == "sub" and t[2] == ("slice", K(None), K(None), K(-1)):
        items = tuple_of(t[1])
        return items and items[::-1]
    return None


def record_of(t):
    "(operation, operands or the single operand's term)"
    items = tuple_of(t)
    if items is None or len(items) != 2 or not is_const(items[0]) or \
            not isinstance(items[0][2], str):
        return None
    ops = tuple_of(items[1])
    return items[0][2], items[1] if ops is None else tuple(ops)


class Ops(Every):
    "Looks inside the operators an operator calls on its own object."
    def inline(self, func, frame):
        return is_new(func) or (
            func.cls is not None and func.name in EXPECT and
            func.qual.startswith("gpkit.nomials.") and frame.depth < 3 and
            frame.func.name in EXPECT and frame.func.name.startswith("__r"))


def operator(chk, cls, name, f, setters):
    prog = chk.prog
    params = f.all_params()
    if not params or params[0] != "self":
        return
    args = {}
    tag, want = EXPECT[name]
    other = None
    if O in want:
        if len(params) < 2:
            return
        other = ("p", params[1])
    for p in params[2 if other else 1:]:    # as Python itself calls it
        d = f.defaults().get(p) if callable(getattr(f, "defaults", None)) \
            else default_of(f, p)
        if d is not None:
            args[p] = d
    try:
        eng = Engine(prog, Ops(prog))
        outs = eng.run(f, cls=cls, args=args)
    except AnalysisBroken as e:
        chk.notes.append("undecided: %s (%s)" % (f.qual, e))
        return
    chk.analysed([f.qual])
    want = tuple({S: ("p", "self"), O: other}[w] for w in want)
    bad, n, empty = None, 0, None
    for st, v in outs.ret:
        got = construction(st, v)
        if got is not None and number_known(st, v):
            continue
        if got is None:
            if not excused(st, v, other, name, want):
                empty = empty or "a path returns %s without recording" \
                    " its construction" % show(strip(v))[:80]
            continue
        n += 1
        if not same(got, (tag, want), st):
            if name.startswith("__r") and other is not None and any(
                    b and t[0] == "isinstance" and t[1] == other and
                    mentions_array(t[2]) for t, b in st.facts.items()):
                continue
            bad = bad or "%s of (%s) is recorded as %s of (%s)" % (
                tag, ", ".join(map(show, want)), got[0],
                ", ".join(show(x)[:60] for x in got[1]))
    if not n:
        return
    if name in ("sum", "prod", "__getitem__"):
        empty = None
    chk.ob("operation-recorded", f, "%s.%s" % (cls.rpartition(".")[2], name),
           bad is None and empty is None, bad or empty, f.node.lineno)


def default_of(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos)-len(a.defaults):], a.defaults):
        if p.arg == name and hasattr(d, "value"):
            return K(d.value)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name and d is not None and hasattr(d, "value"):
            return K(d.value)
    return None


def mentions_array(t):
    return contains(t, lambda x: x[0] == "g" and "array" in x[1].lower())


def construction(st, v, depth=0):
    "(operation, operands) that a returned value carries."
    v = strip(v)
    last = None
    for e in st.events:
        if e.kind == "set" and e.args[1] == "ast" and strip(e.args[0]) == v:
            last = e.args[2]
    if last is not None:
        r = record_of(last)
        if r is None:
            return None
        ops = r[1] if r[1] and isinstance(r[1][0], tuple) else (r[1],)
        return r[0], tuple(operand(o) for o in ops if o != K(None))
    if v[0] == "bin" and v[1] in ARITH:
        return ARITH[v[1]], (operand(v[2]), operand(v[3]))
    if v[0] == "neg":
        return "neg", (operand(v[1]),)
    if v[0] == "call" and v[1][0] == "attr" and v[1][2] in DUNDER and \
            v[1][1][0] not in ("super", "g"):
        tag, names = DUNDER[v[1][2]]
        if len(v[2]) == len(names) - 1:
            pair = {S: v[1][1], O: v[2][0] if v[2] else None}
            return tag, tuple(operand(pair[x]) for x in names)
    return None


def operand(t):
    "An operand, without the array made of it alone."
    t = strip(t)
    while t[0] == "new" and t[1].endswith(ARRAYS) and len(t[2]) == 1:
        t = strip(t[2][0])
    return t


def flatten(c):
    tag, ops = c
    if tag == "sub" and len(ops) == 2:
        return "add", (ops[0], ("neg", ops[1]))
    return tag, ops


def same(a, b, st):
    return flatten(a) == flatten(b)


def number_known(st, v):
    "The path has found that the value is no expression."
    return any(not b and t[0] in ("isinstance", "hasattr") and
               strip(t[1]) == strip(v) for t, b in st.facts.items())


def excused(st, v, other, name, want):
    "Whether a value needs no record of this operation."
    v = strip(v)
    if v == ("b", "NotImplemented") or is_const(v) or v[0] == "p":
        return True
    if v[0] == "bin" or number_known(st, v):
        return True
    if other is not None:       # an operation that changes nothing
        for t, b in st.facts.items():
            if t == other and not b or t[0] == "cmp" and b and \
                    t[1] == "==" and other in t[2:4]:
                return True
    return False


def foreign(chk, all_):
    "Records are made for new values, not written over an operand's."
    for q, r in sorted(all_.items()):
        if is_new(r.func):
            continue            # inside its callers
        for e in r.events:
            if e.kind != "set" or e.args[1] != "ast" or e.args[2] == K(None):
                continue
            base, val = strip(e.args[0]), strip(e.args[2])
            bad = None
            params = set(r.func.all_params())
            if base[0] == "p" and base[1] in params or base[0] in (
                    "attr", "sub", "elem"):
                if not (base == ("p", "self") and r.func.name in (
                        "__init__", "__setstate__", "__array_finalize__")):
                    bad = "the record of %s, which existed before, is" \
                        " replaced" % show(base)[:60]
            elif record_of(val) is None and val[0] in ("attr", "getattr") \
                    and val[2] in ("ast", K("ast")):
                if not (base[0] == "new" and base[2] and
                        strip(base[2][0]) == val[1]):
                    bad = "the record is copied from %s, another" \
                        " expression" % show(val[1])[:60]
            chk.ob("record-of-result", r.func, show(base)[:60], bad is None,
                   bad, e.line)


# --------------------------------------------------------------- printing ----
def leaves(t, st=None):
    "The parts of a text, in order."
    t = strip(t) if t and t[0] != "tuple" else t
    if is_const(t):
        return [("lit", t[2])] if isinstance(t[2], str) else [("val", t)]
    if t[0] == "bin" and t[1] == "%" and is_const(t[2]) and \
            isinstance(t[2][2], str):
        args = list(t[3][1]) if t[3][0] == "tuple" else [t[3]]
        return fill(t[2][2], args, percent(t[2][2]), st)
    if t[0] == "bin" and t[1] == "+":
        return leaves(t[2], st) + leaves(t[3], st)
    if t[0] == "fmt":
        return [x for p in t[1] for x in leaves(p, st)]
    if t[0] == "call" and t[1][0] == "attr" and is_const(t[1][1]) and \
            t[1][2] == "format" and isinstance(t[1][1][2], str):
        return fill(t[1][1][2], list(t[2]), braces(t[1][1][2]), st)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and \
            len(t[2]) == 1 and listed(t[2][0], st) is not None:
        out = []
        for i, x in enumerate(listed(t[2][0], st)):
            out += (leaves(t[1][1], st) if i else []) + leaves(x, st)
        return out
    if t[0] == "call" and t[1] == ("b", "str") and len(t[2]) == 1:
        return leaves(t[2][0], st)
    return [("val", t)]


def listed(t, st):
    "Items of a tuple or of a list built here."
    items = tuple_of(t)
    if items is None and st is not None and t[0] == "obj":
        entries = st.objs.get(t[2], None)
        if entries is not None and all(
                e[0] == "item" and not e[2] for e in entries):
            items = [e[1] for e in entries]
    return items


def percent(s):
    out, i, lit = [], 0, ""
    while i < len(s):
        if s[i] == "%" and i + 1 < len(s):
            if s[i+1] == "%":
                lit += "%"
                i += 2
                continue
            j = i + 1
            while j < len(s) and not s[j].isalpha():
                j += 1
            out += [lit, None]
            lit, i = "", j + 1
        else:
            lit += s[i]
            i += 1
    return out + [lit]


def braces(s):
    out, lit, i = [], "", 0
    while i < len(s):
        if s[i:i+2] in ("{{", "}}"):
            lit += s[i]
            i += 2
        elif s[i] == "{":
            j = s.index("}", i) if "}" in s[i:] else len(s) - 1
            spec = s[i+1:j].split(":")[0].split("!")[0]
            out += [lit, int(spec) if spec.isdigit() else None]
            lit, i = "", j + 1
        else:
            lit += s[i]
            i += 1
    return out + [lit]


def fill(template, args, parts, st):
    out, n = [], 0
    for k, p in enumerate(parts):
        if isinstance(p, str):
            if p:
                out.append(("lit", p))
        else:
            i = n if p is None else p
            n += 1
            if i < len(args):
                out += leaves(args[i], st)
    return out


AST = ("attr", ("p", "self"), "ast")
TAG = ("sub", AST, K(0))
VALS = ("sub", AST, K(1))


def tag_facts(st):
    yes, no = set(), set()
    for t, b in st.facts.items():
        t = strip(t)
        if t[0] == "cmp" and t[1] == "==" and TAG in t[2:4]:
            o = t[3] if t[2] == TAG else t[2]
            if is_const(o):
                (yes if b else no).add(o[2])
        elif t[0] == "in" and t[1] == TAG and tuple_of(t[2]) is not None:
            vals = {x[2] for x in tuple_of(t[2]) if is_const(x)}
            if b:
                yes |= vals
            else:
                no |= vals
    return yes - no if yes else None, no


def printers(chk, all_, recorded):
    found = 0
    for q, r in sorted(all_.items()):
        if is_new(r.func) or not any(
                contains(t, lambda x: x == TAG) for st, _ in r.ret
                for t in st.facts):
            continue
        try:
            eng = Engine(chk.prog, Every(chk.prog))
            outs = eng.run(r.func)
        except AnalysisBroken as e:
            chk.notes.append("undecided: %s (%s)" % (q, e))
            continue
        chk.analysed([q])
        texts = {}
        for st, v in outs.ret:
            tags, _ = tag_facts(st)
            if tags is None:
                if not contains(v, lambda x: x == VALS):
                    continue        # a stored text
                tags = set(recorded)
            for tag in tags:
                texts.setdefault(tag, []).append((st, v))
        if not texts:
            chk.notes.append("undecided: %s chooses by no comparison" % q)
            continue
        found += 1
        for tag, (func, line, _) in sorted(recorded.items()):
            ok = any(not (is_const(v) and v[2] is None)
                     for st, v in texts.get(tag, ()))
            chk.ob("recorded-printable", func, tag, ok,
                   "%r is recorded and %s has no text for it" % (
                       tag, r.func.name), line)
        for tag, paths in sorted(texts.items()):
            if tag not in TEXTS or tag not in recorded:
                continue
            bad = line = None
            for st, v in paths:
                if infeasible(st):
                    continue
                bad = text_of(tag, st, strip(v), recorded[tag][2])
                if bad:
                    break
            chk.ob("text-of-operation", r.func, tag, bad is None, bad,
                   r.func.node.lineno)
        slices(chk, r.func, outs)
    if not found:
        chk.notes.append("undecided: no printer of recorded constructions")


def opnd(i):
    return ("sub", VALS, K(i))


SINGLE = ("neg",)
TEXTS = {"add": 2, "mul": 2, "div": 2, "pow": 2, "neg": 1, "sum": 1,
         "prod": 1, "index": 2}
SIGNS = {"add": "+-", "mul": "·*×", "div": "/÷", "neg": "-", "pow": "^",
         "index": "["}


def has(t, x):
    return contains(t, lambda y: y == x)


def mul_sign(t):
    return t[0] == "g" and t[1].endswith(".MUL")


def text_of(tag, st, v, example):
    "What is wrong with the text of an operation on one path."
    if is_const(v) and v[2] is None:
        return "a path leaves without a text"
    ls = [("lit", tag) if x == ("val", TAG) else x for x in leaves(v, st)]
    single = not (isinstance(example, tuple) and example and
                  isinstance(example[0], tuple))
    first = VALS if single else opnd(0)
    second = opnd(1)
    if tag not in SINGLE and single:
        return "its operands are recorded differently"
    where = {0: None, 1: None}
    for i, (kind, t) in enumerate(ls):
        if kind == "val":
            if where[0] is None and has(t, first) and not (
                    TEXTS[tag] == 2 and has(t, second)):
                where[0] = i
            if TEXTS[tag] == 2 and has(t, second) and not has(t, first) and \
                    where[1] is None:
                where[1] = i
    whole = [t for kind, t in ls if kind == "val" and not mul_sign(t) and
             not (has(t, first) or has(t, second))
             and not harmless(t)]
    if where[0] is not None and where[1] is not None or \
            TEXTS[tag] == 1 and where[0] is not None:
        pass
    else:
        return left_out(tag, st, ls, where, first, second)
    if TEXTS[tag] == 2 and where[0] > where[1]:
        return "the operands' texts are exchanged"
    if tag in ("sum", "prod"):
        tail = "".join(t for k, t in ls[where[0]+1:] if k == "lit")
        return None if tag + "(" in tail else \
            "the text does not name the operation"
    if tag == "neg":
        lead = "".join(t for k, t in ls[:where[0]] if k == "lit")
        if not lead.startswith("-"):
            return "the text has no minus sign before the operand"
        return grouped(ls[where[0]][1], first, True, False)
    between = ls[where[0]+1:where[1]]
    sign = "".join(t for k, t in between if k == "lit").strip(" ()")
    other = [t for k, t in between if k == "val"]
    a, b = ls[where[0]][1], ls[where[1]][1]
    if tag == "add":
        if sign == "-":
            if not cut_sign(st, b):
                return "a minus is written before an operand that does not" \
                    " lose its own"
        elif sign != "+":
            return "no plus sign is written between the operands"
        elif any(x[0] == "sub" and x[2][0] == "slice" for x in subterms(b)):
            return "the operand's sign is cut off after a plus"
        return None
    if tag == "mul":
        if not (sign in ("·", "*", "×") or any(map(mul_sign, other))):
            return "no multiplication sign is written between the operands"
        return grouped(a, first, True, False) or \
            grouped(b, second, True, False)
    if tag == "div":
        if sign not in ("/", "÷"):
            return "no division sign is written between the operands"
        return grouped(a, first, True, False) or \
            grouped(b, second, True, True)
    if tag == "pow":
        g = grouped(a, first, True, True)
        if g:
            return g
        if "^" in sign:
            return None
        return superscript(st, b, second)
    if tag == "index":
        if "[" not in sign:
            return "no bracket is written between the array and the index"
    return None


def harmless(t):
    return contains(t, lambda x: x[0] in ("loopout", "loopvar", "obj", "free"))


def left_out(tag, st, ls, where, first, second):
    "An operand may be missing only if its text is 1."
    lost = [o for i, o in ((0, first), (1, second))
            if where[i] is None and (i == 0 or TEXTS[tag] == 2)]
    if tag == "index" and lost == [second]:
        if any(k == "val" and contains(t, lambda x: x[0] in (
                "loopout", "obj", "phi", "call")) for k, t in ls[1:]):
            return None
        if any(t[0] == "isinstance" and t[1] == second and b
               for t, b in st.facts.items()):
            return None         # a slice without bounds
    for o in lost:
        one = any(b and t[0] == "cmp" and t[1] == "==" and
                  K("1") in t[2:4] and has(t, o)
                  for t, b in st.facts.items())
        if tag == "pow":        # one to any power
            one = any(b and t[0] == "cmp" and t[1] == "==" and
                      K("1") in t[2:4] and has(t, first)
                      for t, b in st.facts.items()) and "".join(
                          str(t) for k, t in ls if k == "lit") == "1"
        if tag == "div" and o == first:
            one = False
        if not one:
            return "an operand is missing from the text%s" % (
                "" if tag != "div" or o != first else
                ": the dividend cannot be left out")
    if not ls or tag != "pow" and where[0] is None and where[1] is None:
        return "both operands are missing from the text"
    return None


def cut_sign(st, b):
    "The operand starts with a minus and is printed without it."
    cut = any(x[0] == "sub" and x[2][0] == "slice" and x[2][1] == K(1) or
              x[0] == "call" and x[1][0] == "attr" and
              x[1][2] in ("lstrip", "removeprefix") for x in subterms(b))
    knows = any(v and (t[0] == "cmp" and t[1] == "==" and K("-") in t[2:4] or
                       t[0] == "call" and t[1][0] == "attr" and
                       t[1][2] == "startswith" and K("-") in t[2])
                for t, v in st.facts.items())
    return cut and knows


def grouped(t, o, addi, mult):
    "Whether an operand's text passes the grouping it needs."
    calls = [x for x in subterms(t) if x[0] == "call" and x[1][0] == "g" and
             "parenthesi" in x[1][1].lower() and has(x, o)]
    if not calls:
        if t[0] == "call" and t[1][0] == "g" and \
                t[1][1].rpartition(".")[2] in ("strify", "try_str_without"):
            return "an operand's text is not grouped"
        return None
    for c in calls:
        opts = dict(c[3])
        names = ("string", "addi", "mult")
        opts.update(zip(names, c[2]))
        for name, need in (("addi", addi), ("mult", mult)):
            v = opts.get(name, K(True))
            if need and is_const(v) and not v[2]:
                return "an operand that is a %s is not grouped" % (
                    "sum" if name == "addi" else "product")
    return None


# -------------------------------------------------------------- exponents ----
def number(t):
    return t[2] if is_const(t) and isinstance(t[2], (int, float)) and \
        not isinstance(t[2], bool) else None


def is_x(t, x):
    t = strip(t)
    return t == x or t[0] == "call" and t[1] == ("b", "int") and \
        len(t[2]) == 1 and is_x(t[2][0], x)


def candidates(st, x):
    "Small integers the exponent may be, given the path's comparisons."
    out = []
    for n in range(-3, 25):
        if all(holds(strip(t), n, x) is not (not b)
               for t, b in st.facts.items()):
            out.append(n)
    return out


def holds(t, n, x):
    "The truth of a fact when the exponent is n; None when it says nothing."
    if t[0] == "cmp":
        a = n if is_x(t[2], x) else number(t[2])
        b = n if is_x(t[3], x) else number(t[3])
        if a is None or b is None or not (is_x(t[2], x) or is_x(t[3], x)):
            return None
        return {"<": a < b, "<=": a <= b, "==": a == b}.get(t[1])
    if t[0] == "in" and is_x(t[1], x):
        items = tuple_of(t[2])
        if items is None or any(number(i) is None for i in items):
            if t[2][0] == "call" and t[2][1] == ("b", "range") and all(
                    number(i) is not None for i in t[2][2]):
                return n in range(*[number(i) for i in t[2][2]])
            return None
        return n in [number(i) for i in items]
    return None


def integral(st, x):
    return any(b and strip(t)[0] == "cmp" and strip(t)[1] == "==" and
               is_x(t[2], x) and is_x(t[3], x) and t[2] != t[3]
               for t, b in st.facts.items())


def infeasible(st):
    x = opnd(1)
    return integral(st, x) and bounded(st, x) and not candidates(st, x)


def bounded(st, x):
    lo = hi = False
    for t, b in st.facts.items():
        t = strip(t)
        if t[0] == "cmp" and t[1] in ("<", "<=") and b:
            lo = lo or is_x(t[3], x) and number(t[2]) is not None
            hi = hi or is_x(t[2], x) and number(t[3]) is not None
    return lo and hi


def superscript(st, t, x):
    "chr(k + x) and table lookups must give the exponent's own digit."
    t = strip(t)
    if t[0] == "call" and t[1] == ("b", "chr") and len(t[2]) == 1:
        a = strip(t[2][0])
        if a[0] == "bin" and a[1] == "+":
            k = number(a[2]) if is_x(a[3], x) else number(a[3])
            if k is not None and (is_x(a[2], x) or is_x(a[3], x)):
                if not bounded(st, x) and not any(
                        strip(f)[0] == "in" and b
                        for f, b in st.facts.items()):
                    return "an unbounded exponent is written as a character"
                for n in candidates(st, x):
                    if SUPERS.get(chr(k + n)) != n:
                        return "the exponent %d is printed as %s" % (
                            n, chr(k + n))
                return None
    if t[0] == "sub" and is_const(t[1]) and isinstance(t[1][2], str) and \
            is_x(t[2], x):
        for n in candidates(st, x):
            if not (0 <= n < len(t[1][2])) or \
                    SUPERS.get(t[1][2][n]) != n:
                return "the exponent %d is printed otherwise" % n
        return None
    if is_x(t, x) or is_x(strip(t), x):
        return "the exponent is written like a factor"
    return None


def slices(chk, f, outs):
    "A slice's text is start, stop and step, in that order."
    order = {"start": 0, "stop": 1, "step": 2}
    bad = n = 0
    line = None
    done = set()

    def walk(events):
        for e in events:
            yield e
            if e.kind == "loop":
                for p in e.args[2]:
                    yield from walk(p[1])
    for st, v in outs.ret:
        for e in walk(st.events):
            if e.kind != "bin" or e.args[0] in done:
                continue
            done.add(e.args[0])
            pos = []
            for kind, t in leaves(e.args[0], st):
                if kind == "val":
                    got = {x[2] for x in subterms(t)
                           if x[0] in ("attr", "getattr") and
                           isinstance(x[2], str) and x[2] in order}
                    if len(got) == 1:
                        pos.append(order[got.pop()])
            if pos:
                n += 1
            if pos != sorted(pos):
                bad, line = bad + 1, e.line
    if n:
        chk.ob("slice-order", f, "index", not bad,
               "a slice's bounds are printed out of order", line)


# ------------------------------------------------------------- equations ----
def equations(chk):
    prog = chk.prog
    base = "gpkit.constraints.single_equation.SingleEquationConstraint"
    if base not in prog.classes:
        return
    me = ("p", "self")
    parts = [("attr", me, n) for n in ("left", "oper", "right")]
    init = prog.classes[base].methods.get("__init__")
    if init is not None:
        eng = Engine(prog, Every(prog))
        outs = eng.run(init)
        chk.analysed([init.qual])
        ps = init.all_params()[1:]
        for i, name in enumerate(("left", "oper", "right")):
            ok = True
            for st, _ in outs.ret:
                got = [e.args[2] for e in st.events if e.kind == "set" and
                       e.args[0] == me and e.args[1] == name]
                ok = ok and bool(got) and i < len(ps) and \
                    got[-1] == ("p", ps[i])
            chk.ob("equation-kept", init, name, ok,
                   "%s is not what was given" % name, init.node.lineno)
    for name in ("str_without", "latex"):
        f = prog.classes[base].methods.get(name)
        if f is None:
            continue
        eng = Engine(prog, Every(prog))
        try:
            outs = eng.run(f)
        except AnalysisBroken as e:
            chk.notes.append("undecided: %s (%s)" % (f.qual, e))
            continue
        chk.analysed([f.qual])
        bad = None
        for st, v in outs.ret:
            pos = []
            for kind, t in leaves(v, st):
                if kind != "val":
                    continue
                got = [i for i, p in enumerate(parts) if has(t, p)]
                pos += got[-1:]     # the right side is indented by the left
            if pos != [0, 1, 2]:
                bad = "the text is not left side, operator, right side"
        chk.ob("equation-text", f, name, bad is None, bad, f.node.lineno)
