"""Definite assignment, path by path.

A state is (names assigned, facts, constants): facts are conditions already
decided on the path (by their text), constants are names known to hold a
literal.  Conditions decided before are not decided again; so a name assigned
under a condition may be read under the same condition.  Calls are taken to
leave conditions as they are; rebinding a name forgets what mentioned it.
"""
import ast

CAP = 80
TURNS = 3
MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear",
            "update", "add", "discard", "setdefault", "sort", "reverse"}
PURE = {"enumerate", "reversed", "sorted", "list", "tuple", "set", "len",
        "zip", "map", "filter", "any", "all", "sum", "max", "min", "str",
        "print", "iter", "isinstance", "bool", "repr", "dict", "id", "type"}
QUIET = (ast.Pass, ast.Global, ast.Nonlocal, ast.FunctionDef)


class St:
    "A state; immutable by convention."
    __slots__ = ("names", "facts", "env", "trail")

    def __init__(self, names, facts, env, trail=()):
        self.names, self.facts, self.env = names, facts, env
        self.trail = trail

    def key(self):
        return (self.names, frozenset(self.facts.items()),
                frozenset((k, repr(v)) for k, v in self.env.items()))

    def but(self, **kw):
        out = St(self.names, self.facts, self.env, self.trail)
        for k, v in kw.items():
            setattr(out, k, v)
        return out


def names_in(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def local_names(fn):
    "Names a function (or module) assigns itself."
    out, elsewhere = set(), set()
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            elsewhere |= set(n.names)
        elif isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            todo.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            todo.append(n.generators[0].iter)
            out |= {w.target.id for w in ast.walk(n)
                    if isinstance(w, ast.NamedExpr)}
            continue
        todo.extend(ast.iter_child_nodes(n))
    return out - elsewhere


def params(fn):
    a = fn.args
    return ({x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            | {x.arg for x in (a.vararg, a.kwarg) if x})


def may_raise(stmt, types):
    "Whether a statement can raise one of the handled exceptions."
    if isinstance(stmt, QUIET):
        return False
    if isinstance(stmt, (ast.Assign, ast.Expr, ast.Return, ast.AnnAssign)) and \
            stmt.value is not None:
        quiet = (ast.Name, ast.Constant, ast.Load, ast.Store, ast.Lambda)
        nodes = list(ast.walk(stmt.value))
        targets = stmt.targets if isinstance(stmt, ast.Assign) else (
            [stmt.target] if isinstance(stmt, ast.AnnAssign) else [])
        plain = all(isinstance(t, ast.Name) for t in targets)
        if plain and all(isinstance(n, quiet + (ast.List, ast.Tuple, ast.Dict))
                         for n in nodes):
            return False
        if types and types <= {"KeyError", "IndexError", "LookupError"} and \
                plain and not any(isinstance(n, (ast.Subscript, ast.Call))
                                  for n in nodes):
            return False
        if types and types <= {"AttributeError"} and plain and not any(
                isinstance(n, (ast.Attribute, ast.Call)) for n in nodes):
            return False
    return True


def pair(op, left, right):
    "(text, names, polarity) of a comparison."
    a, b = ast.unparse(left), ast.unparse(right)
    if isinstance(op, ast.Is):
        return "%s is %s" % (a, b), True
    if isinstance(op, ast.IsNot):
        return "%s is %s" % (a, b), False
    if isinstance(op, ast.Eq):
        return "%s == %s" % tuple(sorted((a, b))), True
    if isinstance(op, ast.NotEq):
        return "%s == %s" % tuple(sorted((a, b))), False
    if isinstance(op, ast.In):
        return "%s in %s" % (a, b), True
    if isinstance(op, ast.NotIn):
        return "%s in %s" % (a, b), False
    if isinstance(op, ast.Lt):
        return "%s < %s" % (a, b), True
    if isinstance(op, ast.Gt):
        return "%s < %s" % (b, a), True
    if isinstance(op, ast.GtE):
        return "%s < %s" % (a, b), False
    return "%s < %s" % (b, a), False        # a <= b


class Unknown(Exception):
    pass


def constant(node, env):
    "The literal value of an expression, or Unknown."
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.Name) and node.id in env:
        return env[node.id]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = constant(node.operand, env)
        if isinstance(v, (int, float)):
            return -v
    if isinstance(node, (ast.List, ast.Tuple)) and not node.elts:
        return ()
    raise Unknown


def compare(op, a, b):
    if isinstance(op, ast.Is):
        return a is b
    if isinstance(op, ast.IsNot):
        return a is not b
    if isinstance(op, ast.Eq):
        return a == b
    if isinstance(op, ast.NotEq):
        return a != b
    try:
        if isinstance(op, ast.Lt):
            return a < b
        if isinstance(op, ast.Gt):
            return a > b
        if isinstance(op, ast.GtE):
            return a >= b
        if isinstance(op, ast.LtE):
            return a <= b
    except TypeError:
        pass
    raise Unknown


class Walk:
    "The states of one function body (or module)."

    def __init__(self, node, start=(), ends=lambda call: False, cap=CAP,
                 turns=TURNS, skip=(), watch=()):
        self.locals = local_names(node) - set(skip)
        self.ends, self.cap, self.turns = ends, cap, turns
        self.reports = {}          # (line, name) -> facts of one path
        self.reads = 0
        self.sites = {}            # id(node) -> states' constants (watched)
        self.watched = set(watch)
        self.exc, self.loops = [], []
        self.asked = set()         # names whose truth is a condition
        for n in ast.walk(node):
            tests = n.values if isinstance(n, ast.BoolOp) else (
                [n.operand] if isinstance(n, ast.UnaryOp)
                and isinstance(n.op, ast.Not) else (
                    [n.test] if hasattr(n, "test") else ()))
            self.asked |= {t.id for t in tests if isinstance(t, ast.Name)}
        self.texts = {}            # condition text -> names in it
        self.numbers = {}          # condition text -> (quantity, op, number)
        self.returns = False
        first = St(frozenset(start), {}, {})
        body = node.body if isinstance(node.body, list) else [node.body]
        self.out = self.block(body, [first])

    # -- states -------------------------------------------------------------
    def merged(self, states):
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) <= self.cap:
            return out
        groups = {}
        for s in out:
            groups.setdefault(s.names, []).append(s)
        out = []
        for names, group in groups.items():
            facts = dict(group[0].facts)
            env = dict(group[0].env)
            for s in group[1:]:
                facts = {k: v for k, v in facts.items()
                         if s.facts.get(k) is v}
                env = {k: v for k, v in env.items()
                       if k in s.env and repr(s.env[k]) == repr(v)}
            out.append(St(names, facts, env, group[0].trail))
        return out

    def forget(self, s, name, text=None):
        "Rebinding a name (or storing to a text) drops what mentioned it."
        facts = {k: v for k, v in s.facts.items()
                 if not (name in self.texts[k] if text is None
                         else text in k)}
        env = s.env
        if text is None and name in env:
            env = {k: v for k, v in env.items() if k != name}
        return s.but(facts=facts, env=env)

    def assigned(self, s, name):
        s = self.forget(s, name)
        return s.but(names=s.names | {name})

    def know(self, s, text, value, node):
        self.texts.setdefault(text, names_in(node))
        facts = dict(s.facts)
        facts[text] = value
        return s.but(facts=facts)

    # -- conditions ---------------------------------------------------------
    def split(self, test, states):
        "(states where test holds, states where it does not)."
        yes, no = [], []
        for s in states:
            y, n = self.split1(test, s)
            yes.extend(y)
            no.extend(n)
        return self.merged(yes), self.merged(no)

    def split1(self, test, s):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            y, n = self.split1(test.operand, s)
            return n, y
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            live, done = [s], []
            for v in test.values:
                y, n = self.split(v, live)
                live, out = (y, n) if is_and else (n, y)
                done.extend(out)
            return (live, done) if is_and else (done, live)
        if isinstance(test, ast.Compare) and len(test.ops) > 1:
            left, parts = test.left, []
            for op, right in zip(test.ops, test.comparators):
                parts.append(ast.Compare(left, [op], [right]))
                left = right
            return self.split1(ast.BoolOp(ast.And(), parts), s)
        if isinstance(test, ast.NamedExpr):
            states = self.expr(test, [s])
            y, n = [], []
            for t in states:
                a, b = self.split1(test.target, t)
                y.extend(a)
                n.extend(b)
            return y, n
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and \
                test.func.id == "bool" and len(test.args) == 1:
            return self.split1(test.args[0], s)
        if isinstance(test, ast.IfExp):
            y, n = self.split1(test.test, s)
            y1, n1 = self.split(test.body, y)
            y2, n2 = self.split(test.orelse, n)
            return y1 + y2, n1 + n2
        states = self.expr(test, [s])
        s = states[0] if states else s
        try:
            if isinstance(test, ast.Compare):
                value = compare(test.ops[0], constant(test.left, s.env),
                                constant(test.comparators[0], s.env))
            else:
                value = bool(constant(test, s.env))
            return ([s], []) if value else ([], [s])
        except Unknown:
            pass
        if isinstance(test, ast.Compare):
            text, pol = pair(test.ops[0], test.left, test.comparators[0])
        else:
            text, pol = ast.unparse(test), True
        known = s.facts.get(text)
        if known is None and text.endswith(" is None") and \
                s.facts.get(text[:-8]) is True:
            known = False
        if known is None and s.facts.get(text + " is None") is True:
            known = False
        if known is not None:
            return ([s], []) if known is pol else ([], [s])
        if isinstance(test, ast.Compare):
            self.measure(text, test)
        y = self.know(s, text, pol, test)
        n = self.know(s, text, not pol, test)
        return ([y] if self.possible(y) else [],
                [n] if self.possible(n) else [])

    def measure(self, text, test):
        "Remembers a comparison with a number as (quantity, op, number)."
        left, op, right = test.left, test.ops[0], test.comparators[0]
        for a, b, flip in ((left, right, False), (right, left, True)):
            try:
                n = constant(b, {})
            except Unknown:
                continue
            if isinstance(n, bool) or not isinstance(n, (int, float)):
                continue
            if isinstance(op, (ast.Eq, ast.NotEq)):
                kind = "eq"
            elif isinstance(op, (ast.Lt, ast.GtE)):
                kind = "gt" if flip else "lt"
            elif isinstance(op, (ast.Gt, ast.LtE)):
                kind = "lt" if flip else "gt"
            else:
                continue
            self.numbers[text] = (ast.unparse(a), kind, n)

    def possible(self, s):
        "Whether the comparisons of each quantity with numbers can all hold."
        asked = {}
        for text, value in s.facts.items():
            if text in self.numbers:
                q, kind, n = self.numbers[text]
                asked.setdefault(q, []).append((kind, n, value))
        for q, rows in asked.items():
            nums = sorted({n for _, n, _ in rows})
            if q.startswith("len(") and q.endswith(")"):
                inside = s.facts.get(q[4:-1])
                lo = 1 if inside is True else 0
                hi = 0 if inside is False else int(max(nums)) + 1
                tries = range(lo, hi + 1)
            else:
                tries = [nums[0] - 1, nums[-1] + 1] + nums + [
                    (a + b)/2 for a, b in zip(nums, nums[1:])]
            if not any(all({"eq": x == n, "lt": x < n, "gt": x > n}[k] is v
                           for k, n, v in rows) for x in tries):
                return False
        return True

    # -- expressions --------------------------------------------------------
    def expr(self, e, states):
        "Reads of an expression; the states after it."
        if e is None or not states:
            return states
        if isinstance(e, ast.BoolOp):
            # operands after the first are read only when reached
            live, out = states, []
            is_and = isinstance(e.op, ast.And)
            for v in e.values[:-1]:
                y, n = self.split(v, live)
                live = y if is_and else n
                out.extend(n if is_and else y)
            live = self.expr(e.values[-1], live)
            return self.merged(out + live)
        if isinstance(e, ast.IfExp):
            y, n = self.split(e.test, states)
            return self.merged(self.expr(e.body, y) + self.expr(e.orelse, n))
        if isinstance(e, ast.NamedExpr):
            states = self.expr(e.value, states)
            return [self.assigned(s, e.target.id) for s in states]
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [k for k in e.args.kw_defaults if k]:
                states = self.expr(d, states)
            return states
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            return self.comprehension(e, states)
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(e, states)
            return states
        if id(e) in self.watched:
            self.sites.setdefault(id(e), []).extend(states)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice,
                              ast.FormattedValue)):
                states = self.expr(c, states)
        if isinstance(e, ast.Call) and not (
                isinstance(e.func, ast.Name) and e.func.id in PURE):
            # may fill an empty list
            for a in list(e.args) + [k.value for k in e.keywords]:
                if isinstance(a, ast.Name):
                    states = [self.forget(s, a.id)
                              if s.env.get(a.id) == () else s for s in states]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                e.func.attr in MUTATORS:
            text = ast.unparse(e.func.value)
            states = [self.forget(s, None, text) for s in states]
            if isinstance(e.func.value, ast.Name):
                states = [self.forget(s, e.func.value.id) for s in states]
        return states

    def comprehension(self, e, states):
        outer = states
        inner = self.expr(e.generators[0].iter, states)
        for i, g in enumerate(e.generators):
            if i:
                inner = self.expr(g.iter, inner)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    inner = [self.assigned(s, n.id) for s in inner]
            for c in g.ifs:
                inner, _ = self.split(c, inner)
        for part in ((e.key, e.value) if isinstance(e, ast.DictComp)
                     else (e.elt,)):
            inner = self.expr(part, inner)
        return outer

    def read(self, n, states):
        if n.id not in self.locals:
            return
        self.reads += 1
        for s in states:
            if n.id not in s.names:
                self.reports.setdefault((n.lineno, n.id), [
                    k if v else "not (%s)" % k for k, v in s.facts.items()])

    # -- targets ------------------------------------------------------------
    def bind(self, target, states, value=None):
        if isinstance(target, ast.Name):
            out = []
            for s in states:
                t = self.assigned(s, target.id)
                if value is not None and not (names_in(value) & {target.id}):
                    out.extend(self.learn(target, value, t, s))
                else:
                    out.append(t)
            return self.merged(out)
        if isinstance(target, (ast.Tuple, ast.List)):
            vals = [None]*len(target.elts)
            if isinstance(value, (ast.Tuple, ast.List)) and \
                    len(value.elts) == len(target.elts):
                vals = value.elts
                bound = {n for t in target.elts for n in names_in(t)}
                vals = [None if names_in(v) & bound else v for v in vals]
            for t, v in zip(target.elts, vals):
                states = self.bind(t, states, v)
            return states
        if isinstance(target, ast.Starred):
            return self.bind(target.value, states)
        states = self.expr(target, states)
        text = ast.unparse(target)
        if isinstance(target, ast.Subscript):
            text = ast.unparse(target.value)
        return [self.forget(s, None, text) for s in states]

    def learn(self, target, value, t, before):
        "What an assignment tells about the truth or value of its name."
        try:
            v = constant(value, t.env)
            env = dict(t.env)
            env[target.id] = v
            if v == () and not isinstance(value, ast.Name):
                # an empty list may be filled, but calls that do it forget it
                pass
            return [t.but(env=env)]
        except Unknown:
            pass
        if isinstance(value, (ast.Compare, ast.BoolOp)) or (
                isinstance(value, ast.UnaryOp)
                and isinstance(value.op, ast.Not)) or (
                    isinstance(value, ast.Call)
                    and isinstance(value.func, ast.Name)
                    and value.func.id == "bool"):
            saved, self.reports = self.reports, {}
            y, n = self.split1(value, t)
            self.reports = saved
            text = target.id
            return ([self.know(s, text, True, target) for s in y]
                    + [self.know(s, text, False, target) for s in n])
        if isinstance(value, ast.IfExp):
            saved, self.reports = self.reports, {}
            y, n = self.split1(value.test, t)
            self.reports = saved
            out = []
            for s in y:
                out.extend(self.learn(target, value.body, s, before))
            for s in n:
                out.extend(self.learn(target, value.orelse, s, before))
            return out
        if isinstance(value, ast.Name):
            text = value.id
            for k in (text, text + " is None"):
                if k in before.facts:
                    t = self.know(t, k.replace(text, target.id, 1),
                                  before.facts[k], target)
            if text not in before.facts and {text, target.id} <= self.asked:
                out = []
                for v in (True, False):
                    b = self.know(t, text, v, value)
                    out.append(self.know(b, target.id, v, target))
                return out
        return [t]

    # -- statements ---------------------------------------------------------
    def block(self, body, states):
        for st in body:
            if not states:
                return []
            states = self.merged(self.stmt(st, states))
        return states

    def stmt(self, st, states):
        for types, sink in self.exc:
            if may_raise(st, types):
                sink.extend(states)
        m = getattr(self, "do_" + type(st).__name__, None)
        if m is not None:
            return m(st, states)
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                states = self.expr(c, states)
        return states

    def do_Expr(self, st, states):
        states = self.expr(st.value, states)
        if isinstance(st.value, ast.Call) and self.ends(st.value):
            return []
        return states

    def do_Assign(self, st, states):
        states = self.expr(st.value, states)
        for t in st.targets:
            states = self.bind(t, states, st.value)
        if isinstance(st.value, ast.Call) and self.ends(st.value):
            return []
        return states

    def do_AnnAssign(self, st, states):
        if st.value is None:
            return states
        states = self.expr(st.value, states)
        return self.bind(st.target, states, st.value)

    def do_AugAssign(self, st, states):
        states = self.expr(st.value, states)
        if isinstance(st.target, ast.Name):
            load = ast.copy_location(ast.Name(st.target.id, ast.Load()),
                                     st.target)
            self.read(load, states)
        return self.bind(st.target, states)

    def do_If(self, st, states):
        y, n = self.split(st.test, states)
        return self.block(st.body, y) + self.block(st.orelse, n)

    def do_Return(self, st, states):
        states = self.expr(st.value, states)
        if states and not (isinstance(st.value, ast.Call)
                           and self.ends(st.value)):
            self.returns = True
        return []

    def do_Raise(self, st, states):
        states = self.expr(st.exc, states)
        self.expr(st.cause, states)
        return []

    def do_Break(self, st, states):
        if self.loops:
            self.loops[-1][0].extend(states)
        return []

    def do_Continue(self, st, states):
        if self.loops:
            self.loops[-1][1].extend(states)
        return []

    def do_Delete(self, st, states):
        for t in st.targets:
            if isinstance(t, ast.Name):
                load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
                self.read(load, states)
                states = [self.forget(s, t.id).but(names=s.names - {t.id})
                          for s in states]
            else:
                states = self.bind(t, states)
        return states

    def imports(self, st, states):
        for a in st.names:
            name = (a.asname or a.name).split(".")[0]
            states = [self.assigned(s, name) for s in states]
        return states
    do_Import = do_ImportFrom = imports

    def do_FunctionDef(self, st, states):
        for d in st.decorator_list:
            states = self.expr(d, states)
        for d in st.args.defaults + [k for k in st.args.kw_defaults if k]:
            states = self.expr(d, states)
        return [self.assigned(s, st.name) for s in states]
    do_AsyncFunctionDef = do_FunctionDef

    def do_ClassDef(self, st, states):
        for d in st.decorator_list + st.bases + [k.value for k in st.keywords]:
            states = self.expr(d, states)
        inner = local_names(st)
        keep, self.locals = self.locals, self.locals - inner
        self.block([b for b in st.body], states)
        self.locals = keep
        return [self.assigned(s, st.name) for s in states]

    def do_Assert(self, st, states):
        y, n = self.split(st.test, states)
        if st.msg is not None:
            self.expr(st.msg, n)
        return y

    def do_With(self, st, states):
        quiet = False
        for item in st.items:
            states = self.expr(item.context_expr, states)
            if "suppress" in ast.unparse(item.context_expr):
                quiet = True
            if item.optional_vars is not None:
                states = self.bind(item.optional_vars, states)
        if not quiet:
            return self.block(st.body, states)
        sink = list(states)
        self.exc.append((set(), sink))
        out = self.block(st.body, states)
        self.exc.pop()
        return out + sink

    def do_Try(self, st, states):
        sinks = []
        for h in st.handlers:
            types = set()
            if h.type is not None:
                elts = (h.type.elts if isinstance(h.type, ast.Tuple)
                        else [h.type])
                types = {ast.unparse(t).split(".")[-1] for t in elts}
            sinks.append((types, []))
        n = len(self.exc)
        self.exc.extend(sinks)
        every = ((set(), []))
        if st.finalbody:
            self.exc.append(every)
        out = self.block(st.body, states)
        del self.exc[n:n + len(sinks)]
        out = self.block(st.orelse, out)
        for h, (_, sink) in zip(st.handlers, sinks):
            entry = self.merged(sink)
            if h.type is not None:
                entry = self.expr(h.type, entry)
            if h.name:
                entry = [self.assigned(s, h.name) for s in entry]
            done = self.block(h.body, entry)
            if h.name:
                done = [self.forget(s, h.name).but(
                    names=s.names - {h.name}) for s in done]
            out = out + done
        if st.finalbody:
            self.exc.pop()
            self.block(st.finalbody, self.merged(every[1]))
            out = self.block(st.finalbody, self.merged(out))
        return out
    do_TryStar = do_Try

    def do_Match(self, st, states):
        states = self.expr(st.subject, states)
        out, total = [], False
        for case in st.cases:
            entry = states
            for n in ast.walk(case.pattern):
                name = getattr(n, "name", None) or getattr(n, "rest", None)
                if isinstance(name, str):
                    entry = [self.assigned(s, name) for s in entry]
            if case.guard is not None:
                entry, _ = self.split(case.guard, entry)
            elif isinstance(case.pattern, ast.MatchAs) and \
                    case.pattern.pattern is None:
                total = True
            out.extend(self.block(case.body, entry))
        return out if total else out + states

    def do_While(self, st, states):
        after, entry = [], states
        stored = local_names(ast.Module(st.body, []))
        self.loops.append(([], []))
        for turn in range(self.turns):
            y, n = self.split(st.test, entry)
            after.extend(n)
            self.loops[-1][1].clear()
            out = self.block(st.body, y)
            entry = self.merged(out + self.loops[-1][1])
            if not entry:
                break
            if turn == self.turns - 2:      # then whatever the turns computed
                for name in stored:
                    entry = [self.forget(s, name) for s in entry]
                entry = self.merged(entry)
        _, n = self.split(st.test, entry)
        after.extend(n)
        broken, _ = self.loops.pop()
        return self.block(st.orelse, self.merged(after)) + broken

    def do_For(self, st, states):
        states = self.expr(st.iter, states)
        text = ast.unparse(st.iter)
        through = st.iter
        while isinstance(through, ast.Call) and len(through.args) == 1 and \
                isinstance(through.func, ast.Name) and through.func.id in (
                    "enumerate", "reversed", "sorted", "list", "tuple", "set"):
            through = through.args[0]
        after, entry = [], []
        endless = (isinstance(st.iter, ast.Call)
                   and text.split("(")[0].split(".")[-1]
                   in ("count", "cycle", "repeat", "iter"))
        certain = endless or nonempty(st.iter)
        for s in states:
            skip = not certain
            inside = ast.unparse(through)
            if skip and s.facts.get(inside) is True:
                skip = False
            run = not (s.facts.get(inside) is False)
            if isinstance(through, ast.Name) and through.id in s.env:
                v = s.env[through.id]
                if v in ((), "", None):
                    run = False
            if skip:
                # the loop's own variables are not held to be unbound
                t = s
                if run:
                    after.append(t.but(names=t.names | {
                        n.id for n in ast.walk(st.target)
                        if isinstance(n, ast.Name)}))
                else:
                    after.append(t)
            if run:
                if isinstance(through, ast.Name):
                    s = self.know(s, inside, True, through)
                entry.append(s)
        self.loops.append(([], []))
        for _ in range(self.turns):
            if not entry:
                break
            entry = self.bind(st.target, entry)
            self.loops[-1][1].clear()
            out = self.block(st.body, self.merged(entry))
            entry = self.merged(out + self.loops[-1][1])
            if not endless:
                after.extend(entry)
        broken, _ = self.loops.pop()
        return self.block(st.orelse, self.merged(after)) + broken
    do_AsyncFor, do_AsyncWith = do_For, do_With


def nonempty(it):
    "Whether an iterable is non-empty by its text."
    if isinstance(it, (ast.Tuple, ast.List, ast.Set)):
        return bool(it.elts) and not all(isinstance(x, ast.Starred)
                                         for x in it.elts)
    if isinstance(it, ast.Constant) and isinstance(it.value, str):
        return bool(it.value)
    if isinstance(it, ast.Dict):
        return bool(it.keys)
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
        if it.func.id in ("enumerate", "reversed", "sorted", "list", "tuple",
                          "set") and it.args:
            return nonempty(it.args[0])
        if it.func.id == "zip" and it.args:
            return all(nonempty(a) for a in it.args)
        if it.func.id == "range":
            # a range of computed length is not held to be empty
            try:
                vals = [constant(a, {}) for a in it.args]
                return bool(range(*vals))
            except (Unknown, TypeError):
                return True
    return False
