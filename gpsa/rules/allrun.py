"""Runs the path engine over every function of the package, once per process.
A function whose paths are too many to enumerate is taken statement by
statement, each from an arbitrary state."""
import ast

from ..flow import Engine, Frame, Spec, State, flat_events
from ..model import AnalysisBroken

CACHE = {}


class Each(Spec):
    loop_mode = "summary"
    max_states = 400


class Run:
    "A function, the engine that ran it, and its final states."

    def __init__(self, func, eng, states, whole, ret=()):
        self.func, self.eng, self.states, self.whole = \
            func, eng, states, whole
        self.ret = list(ret)     # (state, value returned)
        self._events = None

    @property
    def events(self):
        if self._events is None:
            seen, out = set(), []
            for st in self.states:
                for e in flat_events(st.events):
                    if e not in seen:
                        seen.add(e)
                        out.append(e)
            self._events = out
        return self._events


def isolated(prog, f, stmts, spec=None):
    "Statements executed from an arbitrary state of their function."
    eng = Engine(prog, spec or Each(prog))
    st = State()
    lexical, chain, outer = None, [], f.parent
    while outer is not None:
        chain.append(outer)
        outer = outer.parent
    for outer in reversed(chain):
        lexical = Frame(outer, lexical=lexical)
        for name in list(lexical.locals) + list(outer.all_params()):
            st.env[(lexical.id, name)] = ("p", name)
    frame = Frame(f, cls=f.cls.qual if f.cls else None, lexical=lexical)
    for name in set(frame.locals) | set(f.all_params()):
        st.env[(frame.id, name)] = ("p", name)
    eng.entry_frame = frame
    eng.active.append(f.qual)
    o = eng.exec_block(stmts, [st], frame)
    return eng, o.next + o.cont + o.brk + [s for s, _ in o.ret] + \
        [s for s, _ in o.exc]


def piecewise(prog, f, stmts, out, depth=0):
    for s in stmts:
        try:
            eng, states = isolated(prog, f, [s])
            out.extend(states)
        except AnalysisBroken:
            if depth > 6:
                raise
            for field in ("body", "orelse", "finalbody"):
                sub = getattr(s, field, None)
                if isinstance(sub, list):
                    piecewise(prog, f, sub, out, depth + 1)
            for h in getattr(s, "handlers", ()):
                piecewise(prog, f, h.body, out, depth + 1)


def everything(chk):
    "A Run for each function of the package outside its tests."
    prog = chk.prog
    if id(prog) not in CACHE:
        CACHE.clear()
        runs = []
        for f in sorted(prog.all_functions(), key=lambda f: f.qual):
            if ".tests." in f.qual or f.module.name.startswith("gpkit.tests"):
                continue
            spec = Each(prog)
            spec.patience = 12000
            eng = Engine(prog, spec)
            try:
                outs = eng.run(f)
                runs.append(Run(f, eng, [s for s, _ in outs.ret] +
                                [s for s, _ in outs.exc], True,
                                outs.ret))
            except AnalysisBroken:
                states = []
                body = [] if isinstance(f.node, ast.Lambda) else f.node.body
                piecewise(prog, f, body, states)
                runs.append(Run(f, eng, states, False))
        CACHE[id(prog)] = runs
    runs = CACHE[id(prog)]
    chk.analysed({r.func.qual for r in runs})
    for r in runs:
        if not r.whole:
            chk.notes.append("taken statement by statement: " + r.func.qual)
    return runs


def root(t, methods=("get", "setdefault", "items", "values", "keys")):
    "What an access path starts from: the object a write ends up in."
    while True:
        if t[0] in ("attr", "sub", "elem", "val", "only", "getattr"):
            t = t[1]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in methods:
            t = t[1][1]
        elif t[0] == "call" and t[1] == ("b", "getattr") and t[2]:
            t = t[2][0]
        elif t[0] == "default" and len(t) > 2:
            return t
        else:
            return t
