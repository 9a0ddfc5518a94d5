"""Runs one driver function (a root of the exported program) through the abstract interpreter."""
import sys
from .terms import *
from .absint import *
from . import models as M

sys.setrecursionlimit(20000)


class Stop(Exception):
    pass


class Path:
    """One partition of the abstract post-states of a scenario."""

    __slots__ = ("kind", "val", "mem", "facts", "mon", "ev", "snap", "events")

    def __init__(self, kind, val, snap, events):
        self.kind, self.val, self.snap = kind, val, snap
        self.mem, self.facts, self.mon, self.ev = snap[0], snap[1], snap[2], snap[3]
        self.events = events


class Runner:
    """prim: 'abstract' (lock primitives are typestate operations) or 'real' (interpreted)."""

    def __init__(self, prog, setup=None, model=None, on_mark=None, **hooks):
        self.prog = prog
        self.m = model or M.Models()
        self.I = Interp(prog, self.m)
        self.on_mark = on_mark
        self.m.extern_hook = self.extern
        self.marks = {}
        for k, v in hooks.items():
            setattr(self.I, k, v)
        self.setup = setup

    def extern(self, I, what, name):
        if self.on_mark:
            self.on_mark(self, name)
        if name == "stop":
            raise Stop()

    def param(self, p):
        I = self.I
        t = I.p.types[p["t"]]
        root = ("in", p["n"])
        if t["k"] == "ref":
            s = I.p.types[t["p"]]
            rec = I.p.records[s["rec"]] if s["k"] == "rec" else None
            if rec and rec["q"] == "Tecs::ECS":
                return ref(("ecs",) if p["n"] == "w" else ("ecs", p["n"]))
            if s["k"] in ("int", "bool"):
                I.mem[root] = I.scalar(mk("init", root), t["p"])
            return ref(root)
        if t["k"] in ("int", "bool", "ptr"):
            return I.scalar(mk("init", root), p["t"])
        return mk("init", root)

    def run(self, name):
        I = self.I
        c = [i for i, f in enumerate(self.prog.fns) if f and f["n"] == name and f.get("hasbody")]
        if len(c) != 1:
            raise LookupError("driver function " + name)
        fid = c[0]
        fn = self.prog.fns[fid]
        for t in list(ATOMB):  # parameters of other scenarios may share names
            if t.op == "init" and isinstance(t.a[0], tuple) and t.a[0][0] == "in":
                del ATOMB[t]

        def go():
            if self.setup:
                self.setup(self)
            args = [self.param(p) for p in fn["params"]]
            try:
                I.call(fid, None, args, 0)
            except Stop:
                return ("stop", None)
            return ("end", None)

        outs = I.explore(go)
        res = []
        for kind, val, s in outs:
            I.restore(s)
            res.append(Path(kind, val, s, I.events()))
        return res
