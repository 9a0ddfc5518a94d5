"""Abstract interpreter over the exported syntax tree (see DESIGN.md).

Value domain: interned terms over the unknown initial state (value numbering) x linear inequalities (terms.Facts).
Control: trace partitioning; loops are solved as local fixpoints over abstract states, or, when the trip count depends on
unknown sizes, summarised for a generic iteration.
"""
import json, time
from .terms import *

MAXU = {8: 2**8 - 1, 16: 2**16 - 1, 32: 2**32 - 1, 64: 2**64 - 1}
SIZE_MAX = 2**48
ATOMB = {}  # atom -> (lo, hi)


class Ctl(Exception):
    pass


class Ret(Ctl):
    def __init__(self, v):
        self.v = v


class Brk(Ctl):
    pass


class Cont(Ctl):
    pass


class Throw(Ctl):
    def __init__(self, t, loc, v=None):
        self.t, self.loc, self.v = t, loc, v


class Cut(Exception):
    pass


class NeedSummary(Exception):
    pass


class Undecided(Exception):
    """The analysis cannot decide this scenario (unmodelled construct)."""


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns, self.roots, self.types, self.records = d["fns"], d["roots"], d["types"], d["records"]
        self.files, self.globals = d["files"], d["globals"]
        self.unsupported = d["unsupported"]

    def loc(self, l):
        if not l:
            return "?"
        f = self.files[l // 100000]
        f = f[f.find("/repo/") + 6:] if "/repo/" in f else f.split("/")[-1]
        return f"{f}:{l % 100000}"

    def ty(self, t):
        return self.types[t]

    def strip(self, t):
        o = self.types[t]
        return o["p"] if o["k"] == "ref" else t

    def rec(self, t):
        o = self.types[self.strip(t)]
        return self.records[o["rec"]] if o["k"] == "rec" else None

    def fn_by_name(self, q):
        return [i for i, f in enumerate(self.fns) if f and f["q"] == q]


def constant_term(v):
    if isT(v):
        if v.op == "ref" and v.a[0][0] == "S":  # a string literal
            return True
        return v.op not in ("init", "size", "ref", "in", "sel") and all(constant_term(x) for x in v.a)
    return True if not isinstance(v, tuple) else all(constant_term(x) for x in v)


class Frame:
    __slots__ = ("fid", "this", "depth", "dest", "loc", "caps", "ntmp")

    def __init__(self, fid, this, depth, dest, loc, caps):
        self.fid, self.this, self.depth, self.dest, self.loc, self.caps = fid, this, depth, dest, loc, caps
        self.ntmp = 0


class LoopSummary:
    def __init__(self):
        self.paths = []


LIMIT = 60  # seconds per scenario


class Interp:
    LOOP_DEPTH = 40
    LOOP_CAP = 400

    def __init__(self, prog, models):
        self.p = prog
        self.models = models
        self.facts = Facts(self.bounds)
        self.mem = {}
        self.mon = {}
        self.ev = None
        self.cnt = {}
        self.frames = []
        self.dec, self.dpos = [], 0
        self.incond = 0
        self.notes = set()
        self.lambdas = {}
        self.scopes = []
        self.temps = []
        self.loopcache = {}
        self.steps = 0
        self.fns_seen = set()
        self.nsplit = 0
        self.access_hook = None
        self.atomic_now = None
        self.prim_hook = None
        self.call_hook = None
        self.size_hook = None
        self.step_cap = 6000000
        self.deadline = time.time() + LIMIT

    # ---------- state ----------
    def bounds(self, a):
        if a.op == "size":
            return (0, SIZE_MAX)
        return ATOMB.get(a, (None, None))

    def snap(self):
        return (dict(self.mem), self.facts.copy(), dict(self.mon), self.ev, dict(self.cnt))

    def restore(self, s):
        self.mem, self.facts, self.mon, self.ev, self.cnt = dict(s[0]), s[1].copy(), dict(s[2]), s[3], dict(s[4])

    def statekey(self):
        return (frozenset(self.mem.items()), self.facts.key(), frozenset(self.mon.items()))

    def note(self, s):
        self.notes.add(s)

    def event(self, *e):
        self.ev = (self.ev, e + (self.curloc,))

    curloc = 0

    def events(self, since=None):
        r, e = [], self.ev
        while e is not None and e is not since:
            r.append(e[1])
            e = e[0]
        r.reverse()
        return r

    def fresh(self, tag, *a):
        k = ("fresh", tag) + a
        n = self.cnt.get(k, 0)
        self.cnt[k] = n + 1
        return mk("fresh", tag, *a, n)

    def where(self):
        st = []
        for f in self.frames:
            fn = self.p.fns[f.fid]
            st.append(fn["n"])
        return self.p.loc(self.curloc) + " in " + "<-".join(reversed(st[-4:]))

    # ---------- choices ----------
    def choose(self, n):
        if n == 1:
            return 0
        if self.dpos < len(self.dec):
            c = self.dec[self.dpos][0]
        else:
            if time.time() > self.deadline:
                raise Undecided("analysis time limit in " + self.where())
            self.dec.append([0, n])
            c = 0
        self.dpos += 1
        return c

    def explore(self, fn, limit=20000):
        """All paths of fn() from the current state -> [(kind, payload, snapshot)]."""
        sd, sp, sinc, sframes = self.dec, self.dpos, self.incond, len(self.frames)
        stemps, sscopes = len(self.temps), len(self.scopes)
        ntmps = [f.ntmp for f in self.frames]
        start = self.snap()
        outs, dec, n = [], [], 0
        try:
            while True:
                self.restore(start)
                self.dec, self.dpos, self.incond = dec, 0, sinc
                del self.frames[sframes:]
                del self.temps[stemps:]
                del self.scopes[sscopes:]
                for f, k in zip(self.frames, ntmps):
                    f.ntmp = k
                n += 1
                if n > limit:
                    self.note("path limit in " + self.where())
                    raise Undecided("too many paths in " + self.where())
                try:
                    try:
                        k, v = fn(), None
                        if isinstance(k, tuple):
                            k, v = k
                    except (Ret, Brk, Cont, Throw) as e:
                        k, v = "raise", e
                    outs.append((k, v, self.snap()))
                except (Infeasible, Cut):
                    pass
                dec = self.dec[: self.dpos]
                while dec and dec[-1][0] + 1 >= dec[-1][1]:
                    dec.pop()
                if not dec:
                    break
                dec[-1] = [dec[-1][0] + 1, dec[-1][1]]
        finally:
            self.dec, self.dpos, self.incond = sd, sp, sinc
            del self.frames[sframes:]
            del self.temps[stemps:]
            del self.scopes[sscopes:]
            for f, k in zip(self.frames, ntmps):
                f.ntmp = k
            self.restore(start)
        return outs

    def truth(self, t):
        if isinstance(t, int):
            return bool(t)
        if t.op in ("ref", "closure", "it", "fnref"):
            return True
        if t is NULL or t is ZERO:
            return False
        if t.op == "eq" and isT(t.a[0]) and isT(t.a[1]) and t.a[0].op in BOOLISH and t.a[1].op in BOOLISH and \
                t.a[0] in BOOLT and t.a[1] in BOOLT:
            return self.truth(t.a[0]) == self.truth(t.a[1])
        d = self.facts.decide(t)
        if d is None:
            if self.incond:
                raise NeedSummary()
            self.nsplit += 1
            c = self.choose(2)
            d = c == 0
            self.facts.assume(t, d)
        return d

    def decide(self, t):
        if isinstance(t, int):
            return bool(t)
        if t is ZERO or t is NULL:
            return False
        if t.op in ("ref", "closure", "it"):
            return True
        return self.facts.decide(t)

    # ---------- memory ----------
    def select(self, v, acc):
        if not isinstance(v, T):
            self.note(f"select {acc} from {v}")
            return mk("bad", v, acc)
        if v.op == "obj":
            d = v.d
            if acc in d:
                return d[acc]
            return self.select(v.a[0], acc)
        if v.op == "seq":
            if isinstance(acc, tuple) and acc[0] == "i":
                return self.sel_seq(v, acc[1])
            self.note(f"field {acc} of container")
            return mk("sel", v, acc)
        if v is ZERO:
            return ZERO
        if v is UNINIT:
            return UNINIT
        if v is EMPTY and isinstance(acc, tuple) and acc[0] == "i":
            return mk("oob", acc[1])
        if isinstance(acc, tuple) and acc[0] == "i" and v.op not in ("init", "sel", "acc", "accx", "lv", "lvx", "fresh", "pt"):
            pass
        return mk("sel", v, acc)

    def sel_seq(self, s, idx):
        for o in reversed(s.a[3]):
            k = o[0]
            if k == "st":
                if self.truth(teq(o[1], idx)):
                    return o[2]
            elif k == "fill":
                if self.truth(tle(o[1], idx)) and self.truth(tlt(idx, o[2])):
                    return o[3]
            elif k == "app":
                if self.truth(tle(o[1], idx)):
                    src = o[2]
                    return self.select(src, ("i", lin_add(lin_add(idx, o[1], -1), src.a[1])))
            else:
                self.note("select through " + k)
                return mk("sel", s, ("i", idx))
        b = s.a[0]
        if b is EMPTY:
            return mk("oob", idx)
        return self.select(b, ("i", idx))

    def update(self, v, path, val):
        if not path:
            return val
        acc = path[0]
        if isinstance(acc, tuple) and acc[0] == "i":
            s = self.as_seq(v)
            idx = acc[1]
            if len(path) > 1:
                old = self.sel_seq(s, idx)
                val = self.update(old, path[1:], val)
            ops = s.a[3]
            if ops and ops[-1][0] == "st" and ops[-1][1] is idx or (ops and ops[-1][0] == "st" and ops[-1][1] == idx and isinstance(idx, int)):
                ops = ops[:-1]
            return seq(s.a[0], s.a[1], s.a[2], ops + (("st", idx, val),))
        if len(path) > 1:
            val = self.update(self.select(v, acc), path[1:], val)
        if isT(v, "obj"):
            d = dict(v.d)
            d[acc] = val
            return obj(v.a[0], d)
        if not isinstance(v, T):
            self.note(f"update of {v}")
            v = UNINIT
        return obj(v, {acc: val})

    def as_seq(self, v):
        if isT(v, "seq"):
            return v
        if v is EMPTY or v is ZERO or not isinstance(v, T):
            return seq(EMPTY if v is not ZERO else ZERO, 0, 0, ())
        if v is UNINIT:
            return seq(UNINIT, 0, 0, ())
        return seq(v, 0, self.sizeof(v), ())

    def sizeof(self, v):
        if self.size_hook:
            r = self.size_hook(v)
            if r is not None:
                return r
        return mk("size", v)

    def rootval(self, root):
        v = self.mem.get(root)
        if v is None:
            v = self.new_root(root)
        return v

    def new_root(self, root):
        v = mk("init", root)
        if root[0] in ("L", "T", "D"):
            v = UNINIT
            self.note(f"read of dead or unset local {root}")
        self.mem[root] = v
        return v

    def load(self, r):
        if not isT(r, "ref"):
            self.note(f"load through {show(r) if isT(r) else r} at {self.where()}")
            return mk("bad", "load", r)
        root, path = r.a
        if self.access_hook:
            self.access_hook("r", root, path)
        v = self.rootval(root)
        for acc in path:
            v = self.select(v, acc)
        return v

    def peek(self, r):
        h, self.access_hook = self.access_hook, None
        try:
            return self.load(r)
        finally:
            self.access_hook = h

    def store(self, r, val):
        if not isT(r, "ref"):
            self.note(f"store through {show(r) if isT(r) else r} at {self.where()}")
            return
        root, path = r.a
        if self.access_hook:
            self.access_hook("w", root, path)
        if root[0] not in ("L", "T", "D"):
            self.event("wr", root, path, val)
        self.mem[root] = self.update(self.rootval(root) if path else UNINIT, path, val)

    def poke(self, r, val):
        """store without access/event"""
        h, self.access_hook = self.access_hook, None
        e = self.ev
        try:
            self.store(r, val)
        finally:
            self.access_hook = h
            self.ev = e

    def scalar(self, v, t):
        """normalise a loaded value of type id t"""
        o = self.p.types[t]
        if v is ZERO:
            return NULL if o["k"] in ("ptr", "nullptr") else 0 if o["k"] in ("int", "bool") else v
        if isinstance(v, T):
            if o["k"] == "int":
                if v not in ATOMB and v.op not in ("lin", "size"):
                    b = o["bits"]
                    if not o.get("signed"):
                        ATOMB[v] = (0, 2**b - 1)
                    else:
                        ATOMB[v] = (-(2 ** (b - 1)), 2 ** (b - 1) - 1)
            elif o["k"] == "bool":
                BOOLT.add(v)
                if v not in ATOMB:
                    ATOMB[v] = (0, 1)
        return v

    # ---------- functions ----------
    def kind(self, t):
        return self.p.types[t]["k"]

    def is_class(self, t):
        return self.p.types[t]["k"] in ("rec", "arr")

    def call(self, fid, this, args, loc, dest=None, node=None, caps=None):
        """args: already evaluated according to the parameter types."""
        fn = self.p.fns[fid]
        self.curloc = loc
        if self.call_hook:
            r = self.call_hook(fid, fn, this, args, dest)
            if r is not None:
                return r[0]
        if not fn.get("hasbody") or fn["sys"]:
            if fn.get("special") in ("copyctor", "movector", "copyasg", "moveasg") and fn.get("defaulted") and not fn["sys"]:
                v = self.load(args[0])
                self.store(this, v)
                return this if fn["special"].endswith("asg") else VOID
            return self.models.call(self, fid, fn, this, args, dest, node)
        if fn.get("trivial") and fn.get("special") in ("copyctor", "movector", "copyasg", "moveasg"):
            v = self.load(args[0])
            self.store(this, v)
            return this
        self.fns_seen.add(fid)
        if caps is None and this is not None and "cls" in fn and self.p.records[fn["cls"]].get("lambda") and \
                fn.get("op") == "()":
            c = self.closure_of(self.peek(this))
            if c is None or c.a[0] not in self.lambdas:
                raise Undecided("call of unknown closure at " + self.where())
            caps = self.captures(self.lambdas[c.a[0]], this)
        depth = len(self.frames)
        if depth > 120:
            raise Undecided("recursion in " + fn["q"])
        fr = Frame(fid, this, depth, dest, loc, caps)
        self.frames.append(fr)
        scope = []
        self.scopes.append(scope)
        sinc = self.incond
        try:
            for p, a in zip(fn["params"], args):
                self.bind(p, a, scope)
            rv = VOID
            exc = None
            body = False
            try:
                if fn["kind"] == "ctor":
                    self.ctor_inits(fn, this)
                body = True
                self.stmt(fn["body"])
            except Ret as e:
                rv = e.v
            except Ctl as e:
                exc = e
            self.pop_scope()
            if exc is None and fn["kind"] == "dtor":
                self.destroy_members(fn, this)
            if exc is not None:
                if isinstance(exc, (Brk, Cont)):
                    raise Undecided("stray break")
                if body and fn["kind"] == "ctor" and isinstance(exc, Throw):
                    if any(i.get("deleg") for i in fn.get("inits", [])):
                        self.destroy_rec(this, fn["cls"])
                    else:
                        self.destroy_members(fn, this)
                raise exc
            return rv
        finally:
            del self.frames[depth:]

    def bind(self, p, a, scope):
        d = len(self.frames) - 1
        if self.kind(p["t"]) == "ref":
            self.mem[("E", d, p["d"])] = a
            scope.append((("E", d, p["d"]), None))
        else:
            root = ("L", d, p["d"])
            self.mem[root] = a
            scope.append((root, p["t"]))

    def var_ref(self, did):
        d = len(self.frames) - 1
        e = self.mem.get(("E", d, did))
        if e is not None:
            return e
        r = ("L", d, did)
        if r in self.mem:
            return ref(r)
        fr = self.frames[-1]
        if fr.caps:
            c = fr.caps.get(did)
            if c is not None:
                return c()
        return None

    def pop_scope(self, upto=None):
        scope = self.scopes.pop()
        for root, t in reversed(scope):
            if t is not None:
                self.destroy(ref(root), t)
            self.mem.pop(root, None)

    def needs_dtor(self, t):
        o = self.p.types[t]
        if o["k"] == "rec":
            r = self.p.records[o["rec"]]
            return not r.get("trivdtor", True)
        if o["k"] == "arr":
            return self.needs_dtor(o["p"])
        return False

    def destroy(self, r, t):
        o = self.p.types[t]
        if o["k"] != "rec" or not self.needs_dtor(t):
            return
        rec = self.p.records[o["rec"]]
        self.destroy_rec(r, o["rec"])

    def destroy_rec(self, r, rid):
        rec = self.p.records[rid]
        if rec["sys"]:
            return self.models.destroy(self, r, rec)
        d = rec.get("dtor", -1)
        if d is not None and d >= 0 and self.p.fns[d].get("hasbody"):
            self.call(d, r, [], self.curloc)
        else:
            self.destroy_fields(r, rec)
            for b in rec.get("bases", []):
                self.destroy_rec(r, b)

    def destroy_fields(self, r, rec):
        for f in reversed(rec.get("fields", [])):
            if self.needs_dtor(f["t"]):
                self.destroy(ref(r.a[0], r.a[1] + (f["n"],)), f["t"])

    def destroy_members(self, fn, this):
        rec = self.p.records[fn["cls"]]
        self.destroy_fields(this, rec)
        for b in reversed(rec.get("bases", [])):
            self.destroy_rec(this, b)

    def ctor_inits(self, fn, this):
        done = []
        try:
            for i in fn.get("inits", []):
                if "f" in i:
                    fr = ref(this.a[0], this.a[1] + (i["f"],))
                    if self.kind(i["t"]) == "ref":
                        self.poke(fr, self.eval(i["i"]))
                    else:
                        self.init_into(i["i"], fr, i["t"])
                    done.append((fr, i["t"]))
                    self.end_full()
                elif i.get("deleg"):
                    self.init_into(i["i"], this, None)
                    self.end_full()
                else:
                    self.init_into(i["i"], this, i["base"], base=True)
                    self.end_full()
                    done.append((this, i["base"]))
        except Throw:
            for r, t in reversed(done):
                if self.kind(t) != "ref":
                    self.destroy(r, t)
            raise

    # ---------- initialisation ----------
    def init_into(self, n, dest, t, base=False):
        """Evaluate initialiser n into location dest (construct in place)."""
        op = n[0]
        if op in ("bind", "clean"):
            return self.init_into(n[4], dest, t, base)
        if op == "ctor":
            return self.do_ctor(n, dest, base)
        if op in ("call", "mcall", "icall") and self.is_class(n[1]) and n[2] == 0:
            v = self.eval(n, dest)
            if v is not None and v is not VOID and v is not dest:
                self.poke2(dest, v)
            return
        if op == "init" and self.is_class(n[1]):
            return self.do_initlist(n, dest)
        if op == "cond" and self.is_class(n[1]) and n[2] == 0:
            c = self.truth(self.eval(n[4]))
            return self.init_into(n[5] if c else n[6], dest, t, base)
        if op == "inhctor":
            raise Undecided("inherited constructor")
        if op == "lambda":
            self.poke2(dest, self.eval(n))
            return
        if op == "cast" and n[4] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase") and self.is_class(n[1]) and n[2] == 0:
            return self.init_into(n[5], dest, t, base)
        v = self.eval(n)
        if n[2] != 0:
            v = self.load(v)
        self.poke2(dest, v)

    def poke2(self, dest, v):
        # initialisation of a member/local: write event only for non local roots
        self.store(dest, v)

    def do_initlist(self, n, dest):
        o = self.p.types[n[1]]
        els = n[4]
        if n[5] and len(els) == 1:
            return self.init_into(els[0], dest, n[1])
        if o["k"] == "arr":
            self.poke2(dest, seq(UNINIT, 0, o["n"], ()))
            k = 0
            for e in els:
                self.init_into(e, ref(dest.a[0], dest.a[1] + (("i", k),)), o["p"])
                k += 1
            if k < o["n"]:
                s = self.as_seq(self.peek(dest))
                self.poke2(dest, seq(s.a[0], 0, o["n"], s.a[3] + (("fill", k, o["n"], ZERO),)))
            return
        rec = self.p.records[o["rec"]]
        if rec["q"] == "std::array":
            N = int(rec["targs"][1]["i"])
            if els and els[0][0] == "init" and self.kind(els[0][1]) == "arr":
                return self.do_initlist(els[0], dest)
            if not els or els[0][0] == "zero":
                self.poke2(dest, seq(ZERO, 0, N, ()))
                return
        self.poke2(dest, obj(UNINIT, {}))
        fields = rec.get("fields", [])
        nb = len(rec.get("bases", []))
        names = []
        for i, e in enumerate(els):
            if i < nb:
                self.init_into(e, dest, None, base=True)
            else:
                f = fields[i - nb]
                fr = ref(dest.a[0], dest.a[1] + (f["n"],))
                if self.kind(f["t"]) == "ref":
                    self.poke(fr, self.eval(e))
                else:
                    self.init_into(e, fr, f["t"])

    def do_ctor(self, n, dest, base=False):
        fid = n[4]
        fn = self.p.fns[fid]
        args = self.eval_args(fn, n[5])
        self.curloc = n[3]
        if fn["kind"] != "ctor":
            raise Undecided("ctor kind")
        if len(n) > 7 and n[7] and not base:
            self.poke(dest, ZERO)
        if (fn.get("trivial") or (fn.get("defaulted") and not fn.get("hasbody"))) and not fn["sys"]:
            sp = fn.get("special")
            if sp in ("copyctor", "movector"):
                v = self.load(args[0])
                if base:
                    self.merge_base(dest, v)
                else:
                    self.poke2(dest, v)
                return
            if sp == "defctor":
                if not base and not (len(n) > 7 and n[7]):
                    self.poke2(dest, UNINIT)
                return
        if fn["sys"] or not fn.get("hasbody"):
            self.models.ctor(self, fid, fn, dest, args, n, base)
            return
        if not base and not (len(n) > 7 and n[7]):
            self.poke(dest, obj(UNINIT, {}))
        self.run_ctor(fid, dest, args, n[3])

    def merge_base(self, dest, v):
        cur = self.peek(dest)
        if isT(cur, "obj") and isT(v, "obj"):
            d = dict(v.d)
            d.update(cur.d)
            self.poke2(dest, obj(v.a[0], d))
        else:
            self.poke2(dest, v)

    def run_ctor(self, fid, dest, args, loc):
        self.call(fid, dest, args, loc)

    def eval_args(self, fn, nodes):
        out = []
        ps = fn["params"]
        for i, a in enumerate(nodes):
            if i < len(ps):
                t = ps[i]["t"]
                out.append(self.eval_arg(a, t))
            else:
                v = self.eval(a)
                out.append(v)
        return out

    def eval_arg(self, a, t):
        k = self.kind(t)
        if k == "ref":
            v = self.eval(a)
            if a[2] == 0 and not (isT(v, "ref")):
                return self.temp_of(v)
            return v
        if k in ("rec", "arr"):
            return self.eval_class_value(a, t)
        v = self.eval(a)
        if a[2] != 0:
            v = self.scalar(self.load(v), t)
        return v

    def new_temp(self, t, register=True):
        f = self.frames[-1]
        root = ("T", f.depth, f.ntmp)
        f.ntmp += 1
        self.mem[root] = UNINIT
        return root

    def temp_of(self, v):
        root = self.new_temp(None)
        self.mem[root] = v
        self.temps.append((root, None))
        return ref(root)

    def eval_class_value(self, a, t):
        """value of a class prvalue (ownership passes to the receiver)"""
        if a[2] != 0:
            return self.load(self.eval(a))
        root = self.new_temp(t)
        self.init_into(a, ref(root), t)
        v = self.mem.pop(root)
        return v

    # ---------- expressions ----------
    def eval(self, n, dest=None):
        self.steps += 1
        if self.steps > self.step_cap or (self.steps & 1023) == 0 and time.time() > self.deadline:
            raise Undecided("step or time limit")
        op = n[0]
        m = getattr(self, "x_" + op, None)
        if m is None:
            raise Undecided("expression " + op + " at " + self.p.loc(n[3]))
        if op in ("call", "mcall", "icall"):
            return m(n, dest)
        return m(n)

    def rval(self, n):
        """value of expression as prvalue scalar or class value"""
        v = self.eval(n)
        if n[2] != 0:
            v = self.load(v)
            v = self.scalar(v, n[1])
        return v

    def x_int(self, n):
        return int(n[4])

    def x_fp(self, n):
        return mk("fp", str(n[4]))

    def x_str(self, n):
        return ref(("S", n[4]))

    def x_null(self, n):
        return NULL

    def x_zero(self, n):
        k = self.kind(n[1])
        return 0 if k in ("int", "bool") else NULL if k in ("ptr", "nullptr") else ZERO

    def x_this(self, n):
        fr = self.frames[-1]
        if fr.caps and "this" in fr.caps:
            return fr.caps["this"]()
        return fr.this

    def x_fn(self, n):
        return mk("fnref", n[4])

    def x_var(self, n):
        r = self.var_ref(n[4])
        if r is None:
            raise Undecided(f"unbound variable {n[5]} at {self.p.loc(n[3])}")
        return r

    fresh_thread = False

    def x_gvar(self, n):
        g = self.p.globals.get(str(n[4]), {})
        # static locals of different instantiations share their qualified name
        root = ("G", g.get("n", n[5]), n[4]) if g.get("local") else ("G", g.get("n", n[5]))
        if root not in self.mem:
            h, self.access_hook = self.access_hook, None  # initialisation happens once, before or synchronised by the language
            try:
                self.mem[root] = self.global_init(root, g)
            finally:
                self.access_hook = h
        if self.kind(g["t"]) == "ref":
            return self.mem[root]
        return ref(root)

    def global_init(self, root, g):
        t = self.p.types[g["t"]]
        init = g.get("init")
        if g.get("tls") and self.fresh_thread:  # nothing on this thread has used it yet
            if init is None:
                return ZERO
            self.mem[root] = UNINIT
            self.frames.append(Frame(0, None, len(self.frames), None, 0, None))
            try:
                self.init_into(init, ref(root), g["t"])
            finally:
                self.frames.pop()
            if self.mem[root] is UNINIT:
                self.mem[root] = ZERO  # static storage is zeroed first
            return self.mem[root]
        if init is not None and t.get("c"):
            self.mem[root] = UNINIT
            self.frames.append(Frame(0, None, len(self.frames), None, 0, None))
            try:
                self.init_into(init, ref(root), g["t"])
            except Undecided:
                if not g.get("local"):
                    raise
                self.mem[root] = mk("init", root)
            finally:
                self.frames.pop()
            if g.get("local") and not constant_term(self.mem[root]):
                # initialised once, by whichever call came first: not the value computed here
                self.mem[root] = mk("init", root)
            return self.mem[root]
        return mk("init", root)

    def x_mem(self, n):
        b = self.eval(n[4])
        if n[6]:  # arrow: b is a pointer value
            if n[4][2] != 0:
                b = self.load(b)
            b = self.deref(b)
        elif n[4][2] == 0 and not isT(b, "ref"):
            b = self.temp_of(b)
        r = self.member(b, n[5], n[1])
        return r

    def member(self, b, name, t=None):
        if not isT(b, "ref"):
            self.note(f"member {name} of {show(b) if isT(b) else b} at {self.where()}")
            raise Undecided(f"member {name} of unknown object at {self.where()}")
        r = ref(b.a[0], b.a[1] + (name,))
        if name in self.ref_fields:
            v = self.rootval(b.a[0])
            for acc in r.a[1]:
                v = self.select(v, acc)
            if isT(v, "ref"):
                return v
            return self.opaque_ref(v)
        return r

    def opaque_ref(self, v):
        """reference member of an object with unknown initial state"""
        return ref(("P", v))

    @property
    def ref_fields(self):
        s = getattr(self, "_rf", None)
        if s is None:
            s = set()
            for r in self.p.records:
                if r:
                    for f in r.get("fields", []):
                        if self.kind(f["t"]) == "ref":
                            s.add(f["n"])
            self._rf = s
        return s

    def deref(self, p):
        if isT(p, "ref"):
            return p
        if isT(p, "it"):
            return self.it_ref(p)
        if p is NULL or p is ZERO or p == 0:
            self.event("nullderef")
            raise Undecided("null dereference at " + self.where())
        if isT(p):
            return ref(("P", p))
        raise Undecided("deref")

    def it_ref(self, it):
        c, i = it.a
        self.check_idx(c, i)
        return ref(c.a[0], c.a[1] + (("i", i),))

    def check_idx(self, c, i):
        s = self.as_seq(self.peek(c))
        if c.a[0][0] in ("S",):
            return
        ok = self.decide(tle(s.a[1], i)) and self.decide(tlt(i, s.a[2]))
        self.event("idx", c, i, 1 if ok else 0, s.a[2])

    # --- calls ---
    def x_call(self, n, dest=None):
        fid = n[4]
        fn = self.p.fns[fid]
        args = self.eval_args(fn, n[5])
        self.curloc = n[3]
        return self.finish_call(fid, fn, None, args, n, dest)

    def finish_call(self, fid, fn, this, args, n, dest):
        tmp = None
        if self.is_class(fn["ret"]) and dest is None:
            root = self.new_temp(fn["ret"])
            dest = tmp = ref(root)
        r = self.call(fid, this, args, n[3], dest, n)
        self.curloc = n[3]
        if self.is_class(fn["ret"]):
            if isT(r) and r is not VOID and r is not None and r is not dest:
                self.poke2(dest, r)
            if tmp is not None:
                v = self.mem.pop(tmp.a[0], UNINIT)
                return v
            return dest
        if isinstance(r, T) and self.kind(fn["ret"]) != "ref" or isinstance(r, bool):
            r = self.scalar(int(r) if isinstance(r, bool) else r, fn["ret"]) if self.kind(fn["ret"]) in ("int", "bool", "ptr") else r
        return r

    def x_mcall(self, n, dest=None):
        fid = n[4]
        fn = self.p.fns[fid]
        this = self.eval(n[5])
        if n[7]:
            if n[5][2] != 0:
                this = self.load(this)
            this = self.deref(this)
        elif n[5][2] == 0 and not isT(this, "ref"):
            this = self.temp_of(this)
        args = self.eval_args(fn, n[6])
        self.curloc = n[3]
        if n[8] and isT(this, "ref"):
            fid = self.virtual(fid, fn, this)
            fn = self.p.fns[fid]
        return self.finish_call(fid, fn, this, args, n, dest)

    def virtual(self, fid, fn, this):
        return fid

    def x_icall(self, n, dest=None):
        f = self.eval(n[4])
        if n[4][2] != 0:
            f = self.load(f) if not isT(f, "fnref") else f
        if isT(f, "fnref"):
            fn = self.p.fns[f.a[0]]
            return self.finish_call(f.a[0], fn, None, self.eval_args(fn, n[5]), n, dest)
        raise Undecided("indirect call at " + self.p.loc(n[3]))

    def x_ctor(self, n):
        # class prvalue in value context
        root = self.new_temp(n[1])
        self.do_ctor(n, ref(root))
        return self.mem.pop(root)

    def x_init(self, n):
        if not self.is_class(n[1]):
            return self.eval(n[4][0]) if n[4] else self.x_zero(n)
        root = self.new_temp(n[1])
        self.do_initlist(n, ref(root))
        return self.mem.pop(root)

    def x_initlist(self, n):
        return self.eval(n[4]) if n[4][2] == 0 else self.load(self.eval(n[4]))

    def x_tmp(self, n):
        sub = n[4]
        root = self.new_temp(sub[1])
        if self.is_class(sub[1]):
            self.init_into(sub, ref(root), sub[1])
        else:
            v = self.rval(sub)
            self.mem[root] = v
        if n[5]:
            self.scopes[-1].append((root, sub[1]))
        else:
            self.temps.append((root, sub[1]))
        return ref(root)

    def x_bind(self, n):
        return self.eval(n[4])

    def x_clean(self, n):
        mark = len(self.temps)
        v = self.eval(n[4])
        return v

    def x_nop(self, n):
        return VOID

    def x_typeid(self, n):
        return ref(("typeid", n[4]))

    def x_lambda(self, n):
        d = {}
        for c in n[5]:
            k = c["k"]
            if k in ("this",):
                d[c["f"]] = self.x_this(n)
            elif k == "starthis":
                d[c["f"]] = self.load(self.x_this(n))
            elif k == "ref":
                d[c["f"]] = self.eval(c["i"])
            else:
                i = c["i"]
                t = i[1]
                if self.is_class(t):
                    root = self.new_temp(t)
                    self.init_into(i, ref(root), t)
                    d[c["f"]] = self.mem.pop(root)
                else:
                    d[c["f"]] = self.rval(i)
        base = mk("closure", n[4])
        self.lambdas[n[4]] = n
        return obj(base, d)


    def closure_of(self, v):
        b = v
        while isT(b, "obj"):
            b = b.a[0]
        return b if isT(b, "closure") else None

    def captures(self, n, cref):
        caps = {}
        for cp in n[5]:
            f = cp["f"]
            fr = ref(cref.a[0], cref.a[1] + (f,))
            if cp["k"] == "this":
                caps["this"] = lambda fr=fr: self.peek(fr)
            elif cp["k"] == "starthis":
                caps["this"] = lambda fr=fr: fr
            elif cp["k"] == "ref":
                caps[cp["d"]] = lambda fr=fr: self.peek(fr)
            else:
                caps[cp["d"]] = lambda fr=fr: fr
        return caps

    def invoke(self, cref, args, loc, dest=None, argtypes=None):
        """Call a callable stored at cref with evaluated args (glvalues as refs, prvalues as values)."""
        v = self.peek(cref) if isT(cref, "ref") else cref
        if isT(v, "fnobj"):
            v = v.a[0]
            if isT(v, "ref"):
                return self.invoke(v, args, loc, dest)
            root = self.new_temp(None)
            self.mem[root] = v
            cref = ref(root)
            try:
                return self.invoke(cref, args, loc, dest)
            finally:
                self.mem.pop(root, None)
        if isT(v, "fnref"):
            return self.call(v.a[0], None, args, loc, dest)
        c = self.closure_of(v)
        if c is None:
            raise Undecided("call of unknown callable " + show(v) + " at " + self.where())
        n = self.lambdas[c.a[0]]
        if not isT(cref, "ref"):
            root = self.new_temp(None)
            self.mem[root] = v
            cref = ref(root)
        caps = self.captures(n, cref)
        ops = n[6]
        fid = ops[0]
        if len(ops) > 1:
            cands = [o for o in ops if len(self.p.fns[o]["params"]) == len(args)]
            if argtypes:
                c2 = [o for o in cands if all(self.p.strip(p["t"]) == self.p.strip(t) or
                                              self.p.types[self.p.strip(p["t"])]["s"].replace("const ", "") ==
                                              self.p.types[self.p.strip(t)]["s"].replace("const ", "")
                                              for p, t in zip(self.p.fns[o]["params"], argtypes))]
                cands = c2 or cands
            fid = cands[0] if cands else ops[0]
        fn = self.p.fns[fid]
        ar = []
        for p, a, i in zip(fn["params"], args, range(99)):
            if self.kind(p["t"]) == "ref":
                ar.append(a if isT(a, "ref") else self.temp_of(a))
            else:
                if isT(a, "ref") and self.kind(p["t"]) != "ptr":
                    a = self.scalar(self.load(a), p["t"])
                ar.append(a)
        return self.call(fid, None, ar, loc, dest, None, caps)

    # --- casts and operators ---
    def x_cast(self, n):
        k, sub = n[4], n[5]
        if k == "LValueToRValue":
            r = self.eval(sub)
            self.curloc = n[3]
            if sub[2] == 0:
                return r
            return self.scalar(self.load(r), n[1])
        if k in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "FunctionToPointerDecay", "BitCast",
                 "LValueBitCast", "AtomicToNonAtomic", "NonAtomicToAtomic", "Dependent", "Dynamic"):
            return self.eval(sub)
        if k == "ArrayToPointerDecay":
            r = self.eval(sub)
            if isT(r, "ref") and r.a[0][0] == "S":
                return r
            return mk("it", r, 0)
        if k == "NullToPointer":
            return NULL
        if k == "ToVoid":
            self.discard(sub)
            return VOID
        if k in ("IntegralToBoolean",):
            v = self.rval(sub)
            return tnot(teq(v, 0)) if isT(v) else int(v != 0)
        if k == "PointerToBoolean":
            v = self.rval(sub)
            if v is NULL or v is ZERO:
                return 0
            if isT(v) and v.op in ("ref", "it", "fnref"):
                return 1
            return tnot(teq(v, NULL))
        if k == "IntegralCast":
            v = self.rval(sub)
            return self.int_cast(v, sub[1], n[1])
        if k in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralToPointer", "PointerToIntegral",
                 "FloatingToBoolean"):
            v = self.rval(sub)
            return mk("conv", k, v)
        if k in ("ConstructorConversion", "UserDefinedConversion"):
            return self.eval(sub)
        raise Undecided("cast " + k)

    def int_cast(self, v, tf, tt):
        of, ot = self.p.types[tf], self.p.types[tt]
        if of["k"] == "bool":
            if isinstance(v, int):
                return v
            return 1 if self.truth(v) else 0
        if ot["k"] == "bool":
            return tnot(teq(v, 0)) if isT(v) else int(v != 0)
        if isinstance(v, int):
            return self.norm(v, ot)
        if ot["k"] != "int" or of["k"] != "int":
            return v
        lo, hi = self.trange(ot)
        if self.in_range(v, lo, hi):
            return v
        if ot["bits"] >= of["bits"] and not of.get("signed"):
            return v
        if of.get("signed") and ot["bits"] >= of["bits"] and not ot.get("signed"):
            # difference_type -> size_t: two's complement; keep as modular value
            return v if v.op in ("init", "sel", "fresh") and False else mk("u64", v) if ot["bits"] == 64 else mk("trunc", ot["bits"], v)
        if of["bits"] == ot["bits"] and ot.get("signed"):
            return mk("s64", v) if ot["bits"] == 64 else mk("sx", ot["bits"], v)
        r = mk("trunc", ot["bits"], v)
        if not ot.get("signed"):
            ATOMB[r] = (0, 2 ** ot["bits"] - 1)
        return r

    def trange(self, o):
        b = o["bits"]
        if o.get("signed"):
            return -(2 ** (b - 1)), 2 ** (b - 1) - 1
        return 0, 2**b - 1

    def norm(self, v, o):
        if o["k"] == "bool":
            return int(bool(v))
        if o["k"] != "int":
            return v
        b = o["bits"]
        v &= 2**b - 1
        if o.get("signed") and v >= 2 ** (b - 1):
            v -= 2**b
        return v

    def in_range(self, v, lo, hi):
        if isinstance(v, int):
            return lo <= v <= hi
        if not linear(v):
            return False
        return self.facts.decide_le0(lin_add(lo, v, -1)) is True and self.facts.decide_le0(lin_add(v, hi, -1)) is True

    def arith(self, op, a, b, t):
        o = self.p.types[t]
        if isT(a, "it"):
            if op == "-" and isT(b, "it"):
                return lin_add(a.a[1], b.a[1], -1)
            return mk("it", a.a[0], lin_add(a.a[1], b, 1 if op == "+" else -1))
        if isT(b, "it") and op == "+":
            return self.arith(op, b, a, t)
        if o["k"] == "fp":
            return mk("fpop", op, a, b)
        if a is ZERO or a is NULL:
            a = 0
        if b is ZERO or b is NULL:
            b = 0
        if isinstance(a, int) and isinstance(b, int):
            if op == "+":
                r = a + b
            elif op == "-":
                r = a - b
            elif op == "*":
                r = a * b
            elif op == "/":
                r = int(a / b) if b and abs(a) < 2**50 else a // b if b else 0
            elif op == "%":
                r = a - b * int(a / b) if b and abs(a) < 2**50 else a % b if b else 0
            elif op == "&":
                r = a & b
            elif op == "|":
                r = a | b
            elif op == "^":
                r = a ^ b
            elif op == "<<":
                r = a << b if b < 200 else 0
            elif op == ">>":
                r = a >> b
            else:
                raise Undecided("op " + op)
            return self.norm(r, o)
        if op in ("+", "-") or (op == "*" and (isinstance(a, int) or isinstance(b, int))):
            a, b = self.unwrap(a), self.unwrap(b)
            if not (linear(a) and linear(b)):
                return mk("uf", op, a, b)
            if op == "*":
                r = lin_scale(b, a) if isinstance(a, int) else lin_scale(a, b)
            else:
                r = lin_add(a, b, 1 if op == "+" else -1)
            return self.wrap(r, o)
        if op == "/" and isinstance(b, int) and b > 0:
            r = mk("div", a, b)
            ATOMB.setdefault(r, (0, 2**64 - 1))
            lo, hi = lin_add(lin_scale(r, b), a, -1), lin_add(lin_add(a, lin_scale(r, b), -1), -(b - 1))
            self.facts.assume(le0(lo))
            self.facts.assume(le0(hi))
            return r
        if op == "%" and isinstance(b, int) and b > 0:
            r = mk("mod", a, b)
            ATOMB.setdefault(r, (0, b - 1))
            return r
        r = self.bitop(op, a, b, o)
        return r

    def unwrap(self, v):
        return v

    def wrap(self, r, o):
        """modular reduction of a linear value to type o"""
        if isinstance(r, int):
            return self.norm(r, o)
        lo, hi = self.trange(o)
        if self.in_range(r, lo, hi):
            return r
        if o.get("signed"):
            return r  # signed overflow is undefined; treat as mathematical
        if o["bits"] < 64:
            t = mk("wadd", o["bits"], r)
            ATOMB[t] = (lo, hi)
            return t
        # u64(x) atoms from signed offsets: r mod 2^64
        c, d = lin_parts(r)
        for a in list(d):
            if a.op == "u64":
                k = d.pop(a)
                base = lin_scale(a.a[0], k)
                return self.wrap(lin_add(lin_make(c, d), base), o)
        if self.facts.decide_le0(lin_add(0, r, -1)) is not True:
            # may be negative
            if not self.truth(le0(lin_add(0, r, -1))):
                return self.wrap(lin_add(r, hi + 1), o)
        if self.facts.decide_le0(lin_add(r, hi, -1)) is not True:
            if not self.truth(le0(lin_add(r, hi, -1))):
                return self.wrap(lin_add(r, -(hi + 1)), o)
        return r

    def bitop(self, op, a, b, o):
        if op in ("&", "|", "^") and isinstance(a, int):
            a, b = b, a
        if op == "&" and b == 0:
            return 0
        if op in ("|", "^", "<<", ">>") and b == 0:
            return a
        if op == "&" and isinstance(b, int) and b == 2 ** o["bits"] - 1:
            return a
        if op == "|" and a is b:
            return a
        if o["k"] == "bool" or (isT(a) and a in BOOLT and (isinstance(b, int) or b in BOOLT)):
            ta, tb = self.truth(a), self.truth(b)
            return int(ta & tb if op == "&" else ta | tb if op == "|" else ta ^ tb)
        r = mk("bv", op, o["bits"], a, b)
        if not o.get("signed"):
            lo, hi = 0, 2 ** o["bits"] - 1
            if op == "&" and isinstance(b, int):
                hi = b
            if op == ">>" and isinstance(b, int):
                hi >>= b
            if op == "<<" and isinstance(b, int) and isT(a):
                x = self.bounds(a)
                if x[0] is not None and x[0] >= 0 and x[1] is not None and x[1] << b <= hi:
                    hi = x[1] << b
            ATOMB[r] = (lo, hi)
        return r

    def compare(self, op, a, b, t=None):
        if isT(a, "it") and isT(b, "it"):
            a, b = a.a[1], b.a[1]
        a = 0 if a is ZERO else a
        b = 0 if b is ZERO else b
        if op in ("==", "!="):
            r = self.eqterm(a, b)
            return r if op == "==" else tnot(r)
        if a is NULL:
            a = 0
        if b is NULL:
            b = 0
        a, b = self.unpack(self.u64norm(a)), self.unpack(self.u64norm(b))
        if not (linear(a) and linear(b)):
            return mk("cmp", op, a, b)
        if op == "<":
            return tlt(a, b)
        if op == ">":
            return tlt(b, a)
        if op == "<=":
            return tle(a, b)
        return tle(b, a)

    def unpack(self, t):
        """bit fields that do not overlap, as a sum"""
        if not isT(t, "bv"):
            return t
        op, w, a, b = t.a
        if op == "<<" and isinstance(b, int):
            a = self.unpack(a)
            if linear(a):
                r = lin_scale(a, 2**b)
                if self.in_range(r, 0, 2**w - 1):
                    return r
        elif op in ("|", "^"):
            a, b = self.unpack(a), self.unpack(b)
            for x, y in ((a, b), (b, a)):
                if linear(x) and linear(y):
                    c, d = lin_parts(x)
                    g = 0
                    for k in [c, *d.values()]:
                        g |= abs(k)
                    g &= -g
                    if g > 1 and self.in_range(y, 0, g - 1):
                        return lin_add(x, y)
        return t

    def u64norm(self, a):
        if isT(a, "u64"):
            x = a.a[0]
            return x if self.truth(le0(lin_scale(x, -1))) else lin_add(x, 2**64)
        return a

    def eqterm(self, a, b):
        if isT(a, "bv") or isT(b, "bv"):
            x, y = self.unpack(a), self.unpack(b)
            if linear(x) and linear(y):
                a, b = x, y
        if isinstance(a, T) and isinstance(b, T):
            if a is b:
                return 1
            if a.op == "ref" and b.op == "ref":
                return self.ref_eq(a, b)
            if (a.op == "ref" and b is NULL) or (b.op == "ref" and a is NULL):
                return 0
            if {a.op, b.op} == {"it", "null"}:
                return 0
            if a in BOOLT and b in BOOLT:
                return int(self.truth(a) == self.truth(b))
        elif isinstance(a, T) and a in BOOLT and isinstance(b, int):
            return a if b == 1 else tnot(a) if b == 0 else 0
        elif isinstance(b, T) and b in BOOLT and isinstance(a, int):
            return b if a == 1 else tnot(b) if a == 0 else 0
        a, b = self.u64norm(a), self.u64norm(b)
        if isT(a) and a.op in ("ref",) and isinstance(b, int) or isT(b) and b.op == "ref" and isinstance(a, int):
            return 0
        if isT(a) and isT(b) and (a.op in NONLIN or b.op in NONLIN):
            return teq(a, b)
        return teq(a, b)

    def ref_eq(self, a, b):
        if a.a[0] != b.a[0]:
            if a.a[0][0] == "P" or b.a[0][0] == "P":
                return teq(a, b)
            return 0
        pa, pb = a.a[1], b.a[1]
        if len(pa) != len(pb):
            return 0
        for x, y in zip(pa, pb):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "i" == y[0]:
                if not self.truth(teq(x[1], y[1])):
                    return 0
            elif x != y:
                return 0
        return 1

    def x_un(self, n):
        op, sub = n[4], n[5]
        if op == "&":
            r = self.eval(sub)
            return r
        if op == "*":
            v = self.rval(sub)
            return self.deref(v)
        if op == "!":
            v = self.rval(sub)
            return tnot(v) if not isT(v) or v.op != "ref" else 0
        if op == "+":
            return self.rval(sub)
        if op == "-":
            v = self.rval(sub)
            return self.arith("-", 0, v, n[1])
        if op == "~":
            v = self.rval(sub)
            o = self.p.types[n[1]]
            if isinstance(v, int):
                return self.norm(~v, o)
            return mk("bv", "~", o["bits"], v, 0)
        if op in ("++", "--", "post++", "post--"):
            r = self.eval(sub)
            t = self.p.strip(sub[1])
            old = self.scalar(self.load(r), t)
            o = self.p.types[t]
            one = 1
            if o["k"] == "bool":
                new = 1
            elif isT(old, "it"):
                new = mk("it", old.a[0], lin_add(old.a[1], 1, 1 if "++" in op else -1))
            elif not linear(old):
                new = mk("uf", op[-2:], old)
            else:
                new = self.wrap(lin_add(old, 1, 1 if "++" in op else -1), o)
            self.curloc = n[3]
            self.store(r, new)
            return old if op.startswith("post") else r
        raise Undecided("unary " + op)

    def x_bin(self, n):
        op = n[4]
        if op == "&&":
            return 1 if self.truth(self.rval(n[5])) and self.truth(self.rval(n[6])) else 0
        if op == "||":
            return 1 if self.truth(self.rval(n[5])) or self.truth(self.rval(n[6])) else 0
        if op == ",":
            self.discard(n[5])
            return self.eval(n[6])
        a = self.rval(n[5])
        b = self.rval(n[6])
        self.curloc = n[3]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        if op == "<=>":
            raise Undecided("<=>")
        return self.arith(op, a, b, n[1])

    def x_asg(self, n):
        op = n[4]
        if op == "=":
            # C++17: right operand first
            v = self.rval(n[6]) if not self.is_class(n[6][1]) or n[6][2] != 0 else self.eval_class_value(n[6], n[6][1])
            r = self.eval(n[5])
            self.curloc = n[3]
            self.store(r, v)
            return r
        v = self.rval(n[6])
        r = self.eval(n[5])
        t = self.p.strip(n[5][1])
        old = self.scalar(self.load(r), t)
        ct = n[7] if len(n) > 7 else t
        if self.kind(t) in ("int", "bool") and self.kind(ct) == "int":
            a = self.int_cast(old, t, ct)
            res = self.arith(op[:-1], a, v, ct)
            res = self.int_cast(res, ct, t) if self.kind(t) == "int" else int(self.truth(res)) if isT(res) else int(bool(res))
        else:
            res = self.arith(op[:-1], old, v, t)
        self.curloc = n[3]
        self.store(r, res)
        return r

    def x_cond(self, n):
        c = self.truth(self.rval(n[4]))
        return self.eval(n[5] if c else n[6])

    def x_idx(self, n):
        b = self.rval(n[4])
        i = self.rval(n[5])
        if not isT(b, "it") and isT(i, "it"):
            b, i = i, b
        if isT(b, "it"):
            return self.it_ref(mk("it", b.a[0], lin_add(b.a[1], i)))
        if isT(b, "ref") and b.a[0][0] == "S":
            return ref(("S", b.a[0][1], i))
        raise Undecided("subscript at " + self.p.loc(n[3]))

    def x_throw(self, n):
        t = n[4][1] if n[4] else None
        self.curloc = n[3]
        loc = n[3]
        v = None
        if n[4]:
            v = self.eval_class_value(n[4], t) if self.is_class(t) else self.rval(n[4])
        self.curloc = loc
        self.event("throw", t)
        raise Throw(t, loc, v)

    def x_new(self, n):
        if n[6] or n[7]:
            raise Undecided("array or placement new expression at " + self.p.loc(n[3]))
        k = 0
        while ("H", n[3], k) in self.mem:
            k += 1
        root = ("H", n[3], k)
        r = ref(root)
        self.mem[root] = UNINIT
        self.mem[("ty", root)] = n[4]
        try:
            if n[5] is not None:
                if self.is_class(n[4]):
                    self.init_into(n[5], r, n[4])
                else:
                    self.mem[root] = self.rval(n[5])
        except Throw:
            self.mem.pop(root, None)
            self.mem.pop(("ty", root), None)
            raise
        self.event("heapnew", root, n[4])
        return r

    def x_delete(self, n):
        v = self.rval(n[4])
        if v is NULL or v is ZERO or v == 0:
            return VOID
        if not (isT(v, "ref") and v.a[0][0] == "H" and not v.a[1] and ("ty", v.a[0]) in self.mem and ("rc", v.a[0]) not in self.mem):
            raise Undecided("delete expression at " + self.p.loc(n[3]))
        self.event("free", v.a[0])
        self.destroy(v, self.mem[("ty", v.a[0])])
        self.mem.pop(v.a[0], None)
        self.mem.pop(("ty", v.a[0]), None)
        return VOID

    def x_unsup(self, n):
        raise Undecided("unsupported expression " + str(n[4]) + " at " + self.p.loc(n[3]))

    # ---------- statements ----------
    def end_full(self):
        while self.temps and self.temps[-1][0][1] == self.frames[-1].depth:
            root, t = self.temps.pop()
            if t is not None and root in self.mem:
                self.destroy(ref(root), t)
            self.mem.pop(root, None)
        if not any(s for s in self.scopes[-1:] if any(r[0][0] == "T" for r in s)):
            pass

    def discard(self, n):
        if self.is_class(n[1]) and n[2] == 0 and self.needs_dtor(n[1]):
            root = self.new_temp(n[1])
            self.init_into(n, ref(root), n[1])
            self.temps.append((root, n[1]))
        else:
            self.eval(n)

    def full(self, n):
        """full expression, value discarded"""
        try:
            self.discard(n)
        except Throw:
            self.end_full()
            raise
        self.end_full()

    def fullval(self, n):
        try:
            v = self.rval(n)
        except Throw:
            self.end_full()
            raise
        self.end_full()
        return v

    def stmt(self, s):
        if s is None:
            return
        op = s[0]
        m = getattr(self, "s_" + op, None)
        if m is None:
            raise Undecided("statement " + op)
        m(s)

    def s_null(self, s):
        pass

    def s_seq(self, s):
        self.scopes.append([])
        try:
            for x in s[2]:
                self.stmt(x)
        except Ctl:
            self.pop_scope()
            raise
        except BaseException:
            self.scopes.pop()
            raise
        self.pop_scope()

    def s_decl(self, s):
        for v in s[2]:
            self.decl_var(v)

    def decl_var(self, v):
        t = v["t"]
        if v.get("static"):
            g = self.p.globals.get(str(v["d"]), {})
            return
        d = len(self.frames) - 1
        if self.kind(t) == "ref":
            r = self.eval(v["i"]) if v["i"][0] != "clean" else self.eval(v["i"][4])
            if not isT(r, "ref"):
                r = self.temp_of(r)
                self.temps.pop()
                self.scopes[-1].append((r.a[0], None))
            self.mem[("E", d, v["d"])] = r
            self.scopes[-1].append((("E", d, v["d"]), None))
            self.end_full()
            return
        root = ("L", d, v["d"])
        self.mem[root] = UNINIT
        i = v.get("i")
        try:
            if i is not None:
                if self.is_class(t):
                    self.init_into(i, ref(root), t)
                else:
                    self.mem[root] = self.rval(i)
        except Throw:
            self.end_full()
            self.mem.pop(root, None)
            raise
        self.scopes[-1].append((root, t))
        self.end_full()
        for b in v.get("binds", []):
            self.decl_var(b)

    def s_expr(self, s):
        self.full(s[2])

    def s_if(self, s):
        self.scopes.append([])
        try:
            if s[2]:
                self.stmt(s[2])
            if s[3]:
                self.decl_var(s[3])
            if self.truth(self.fullval(s[4])):
                self.stmt(s[5])
            elif s[6]:
                self.stmt(s[6])
        except Ctl:
            self.pop_scope()
            raise
        except BaseException:
            self.scopes.pop()
            raise
        self.pop_scope()

    def s_ret(self, s):
        n = s[2]
        fr = self.frames[-1]
        fn = self.p.fns[fr.fid]
        self.curloc = s[1]
        if n is None:
            raise Ret(VOID)
        rt = fn["ret"]
        k = self.kind(rt)
        try:
            if k == "ref":
                v = self.eval(n)
                if not isT(v, "ref"):
                    v = self.temp_of(v)
                    self.temps.pop()
            elif k in ("rec", "arr"):
                if fr.dest is not None:
                    self.init_into(n, fr.dest, rt)
                    v = fr.dest
                else:
                    v = self.eval_class_value(n, rt)
            elif k == "void":
                self.eval(n)
                v = VOID
            else:
                v = self.rval(n)
        except Throw:
            self.end_full()
            raise
        self.end_full()
        raise Ret(v)

    def s_brk(self, s):
        raise Brk()

    def s_cont(self, s):
        raise Cont()

    def s_try(self, s):
        try:
            self.stmt(s[2])
        except Throw as e:
            for h in s[3]:
                if h["t"] is None or self.catches(h["t"], e.t):
                    self.scopes.append([])
                    try:
                        if h.get("v"):
                            v = h["v"]
                            d = len(self.frames) - 1
                            root = ("L", d, v["d"])
                            self.mem[root] = e.v if e.v is not None else UNINIT
                            self.scopes[-1].append((root, None))
                            if self.kind(v["t"]) == "ref":
                                self.mem[("E", d, v["d"])] = ref(root)
                                self.scopes[-1].append((("E", d, v["d"]), None))
                        self.handling = e
                        self.stmt(h["b"])
                    except Ctl:
                        self.pop_scope()
                        raise
                    self.pop_scope()
                    return
            raise

    def x_rethrow(self, n):
        raise self.handling

    def catches(self, t, et):
        a = self.p.types[self.p.strip(t)]["s"].replace("const ", "")
        b = self.p.types[self.p.strip(et)]["s"].replace("const ", "") if et is not None else ""
        if a == b or a in ("std::exception",):
            return True
        chain = {"std::overflow_error": ["std::runtime_error"], "std::out_of_range": ["std::logic_error"],
                 "std::invalid_argument": ["std::logic_error"], "std::range_error": ["std::runtime_error"]}
        return a in chain.get(b, [])

    def s_switch(self, s):
        self.scopes.append([])
        try:
            if s[2]:
                self.stmt(s[2])
            if s[3]:
                self.decl_var(s[3])
            v = self.fullval(s[4])
            body = s[5][2] if s[5][0] == "seq" else [s[5]]
            flat = []  # (labels, stmt)
            for b in body:
                labs = []
                while b is not None and b[0] in ("case", "default"):
                    labs.append(None if b[0] == "default" else b[2])
                    b = b[3] if b[0] == "case" else b[2]
                flat.append((labs, b))
            start = None
            dflt = None
            for i, (labs, b) in enumerate(flat):
                for l in labs:
                    if l is None:
                        dflt = i
                    elif start is None and self.truth(self.eqterm(v, self.eval(l))):
                        start = i
                if start is not None:
                    break
            if start is None:
                for i, (labs, b) in enumerate(flat):
                    if None in labs:
                        dflt = i
                start = dflt
            if start is not None:
                try:
                    for labs, b in flat[start:]:
                        self.stmt(b)
                except Brk:
                    pass
        except Ctl:
            self.pop_scope()
            raise
        self.pop_scope()

    def s_case(self, s):
        self.stmt(s[3])

    def s_default(self, s):
        self.stmt(s[2])

    def s_label(self, s):
        raise Undecided("goto/label")

    def s_goto(self, s):
        raise Undecided("goto/label")

    def s_unsup(self, s):
        raise Undecided("unsupported statement " + str(s[2]) + " at " + self.p.loc(s[1]))

    # ---------- loops ----------
    def s_while(self, s):
        def cond():
            if s[2]:
                self.decl_var(s[2])
            return self.truth(self.fullval(s[3]))

        self.loop(s, cond, None, lambda: self.stmt(s[4]))

    def s_do(self, s):
        self.loop(s, lambda: self.truth(self.fullval(s[3])), None, lambda: self.stmt(s[2]), post=True)

    def s_for(self, s):
        self.scopes.append([])
        try:
            if s[2]:
                self.stmt(s[2])

            def cond():
                if s[3]:
                    self.decl_var(s[3])
                return self.truth(self.fullval(s[4])) if s[4] else True

            self.loop(s, cond, (lambda: self.full(s[5])) if s[5] else None, lambda: self.stmt(s[6]))
        except Ctl:
            self.pop_scope()
            raise
        except BaseException:
            self.scopes.pop()
            raise
        self.pop_scope()

    def s_rfor(self, s):
        self.scopes.append([])
        try:
            for x in s[2]:
                self.stmt(x)

            def body():
                self.scopes.append([])
                try:
                    self.stmt(s[5])
                    self.stmt(s[6])
                except Ctl:
                    self.pop_scope()
                    raise
                except BaseException:
                    self.scopes.pop()
                    raise
                self.pop_scope()

            self.loop(s, lambda: self.truth(self.fullval(s[3])), lambda: self.full(s[4]), body)
        except Ctl:
            self.pop_scope()
            raise
        except BaseException:
            self.scopes.pop()
            raise
        self.pop_scope()

    def loop(self, node, cond, inc, body, post=False):
        entry = self.snap()
        loopid = id(node)
        ck = (loopid, tuple(f.fid for f in self.frames), self.statekey())
        hit = self.loopcache.get(ck)
        if hit is None:
            try:
                hit = self.loop_fix(node, cond, inc, body, post)
            except NeedSummary:
                if self.incond and False:
                    raise
                self.restore(entry)
                hit = self.loop_summary(node, cond, inc, body, post)
            self.loopcache[ck] = hit
            self.restore(entry)
        if not hit:
            raise Infeasible()
        c = self.choose(len(hit))
        kind, val, st = hit[c]
        pre = self.ev
        sev = st[3]
        self.restore(st)
        # splice events: the cached suffix is relative to the events at loop entry of the first visit
        self.ev = pre
        for e in self.suffix(sev, entry_of(hit)):
            self.ev = (self.ev, e)
        if kind == "raise":
            raise val

    def suffix(self, ev, base):
        r = []
        while ev is not None and ev is not base:
            r.append(ev[1])
            ev = ev[0]
        r.reverse()
        return r

    def loop_fix(self, node, cond, inc, body, post):
        entry_ev = self.ev
        work = [(self.snap(), post, 0)]
        seen = set()
        exits, ekeys = [], set()
        n = 0

        def iteration(skip):
            if not skip:
                si = self.incond
                self.incond = 1
                try:
                    c = cond()
                finally:
                    self.incond = si
                if not c:
                    return "exit"
            si = self.incond
            self.incond = 0
            try:
                body()
            except Cont:
                pass
            except Brk:
                return "exit"
            finally:
                self.incond = si
            if inc:
                inc()
            return "again"

        while work:
            st, skip, depth = work.pop(0)
            self.restore(st)
            for kind, val, s in self.explore(lambda: iteration(skip)):
                self.restore(s)
                if kind == "again":
                    k = self.statekey()
                    if k not in seen:
                        seen.add(k)
                        n += 1
                        if n > self.LOOP_CAP or depth > self.LOOP_DEPTH:
                            raise NeedSummary()
                        work.append((s, False, depth + 1))
                else:
                    k = (kind, self.exckey(val), self.statekey())
                    if k not in ekeys:
                        ekeys.add(k)
                        exits.append((kind, val, s))
        return Exits(exits, entry_ev)

    def exckey(self, e):
        if e is None:
            return None
        if isinstance(e, Ret):
            return ("ret", e.v)
        if isinstance(e, Throw):
            return ("throw", e.t, e.loc)
        return type(e).__name__

    # --- summaries ---
    def diff(self, a, b, path, out):
        if a is b or (isinstance(a, int) and a == b):
            return
        if isT(a) and isT(b) and b.op == "obj" and a.op not in ("seq", "it", "ref") or (isT(a) and isT(b) and a.op == "obj" and b.op not in ("seq", "it", "ref")):
            keys = set()
            for x in (a, b):
                if x.op == "obj":
                    keys |= set(x.d)
                    # same underlying base?
            ba = a.a[0] if a.op == "obj" else a
            bb = b.a[0] if b.op == "obj" else b
            if ba is bb:
                for k in keys:
                    self.diff(self.select(a, k), self.select(b, k), path + (k,), out)
                return
        out.append((path, a, b))

    def loop_summary(self, node, cond, inc, body, post):
        entry = self.snap()
        n = self.cnt.get(("loop", id(node)), 0)
        entry[4][("loop", id(node))] = n + 1
        loc = node[1] if isinstance(node[1], int) else 0
        lid = (self.p.loc(loc), self.p.fns[self.frames[-1].fid]["n"], self.loop_ctx(), n)
        K = mk("ind", lid)
        ATOMB[K] = (0, SIZE_MAX)
        KX = mk("indx", lid)
        ATOMB[KX] = (0, SIZE_MAX)
        mod = {}  # (root,path) -> ('ind',start,step)|('acc',start,end|None)|('lv',)

        def havoc_val(key, m, x=False):
            k = KX if x else K
            tag = "x" if x else ""
            if m[0] == "ind":
                return lin_add(m[1], lin_scale(k, m[2]))
            if m[0] == "it":
                return mk("it", m[1], lin_add(m[2], lin_scale(k, m[3])))
            if m[0] == "acc":
                b = mk("acc" + tag, lid, key)
                return seq(b, 0, mk("size", b), ())
            if m[0] == "accfix":
                return seq(mk("acc" + tag, lid, key), m[1], m[2], ())
            v = mk("lv" + tag, lid, key)
            if m[0] == "lvbool":
                BOOLT.add(v)
                ATOMB[v] = (0, 1)
            elif m[0] == "lvint":
                ATOMB[v] = m[1]
            return v

        invs = []  # linear forms over K that are <= 0 whenever the loop head is reached

        def apply(st, x=False):
            self.restore(st)
            for l in invs:
                c, d = lin_parts(l)
                k = d.pop(K)
                self.facts.assume(le0(lin_add(lin_make(c, d), KX if x else K)))
            for key, m in mod.items():
                root, path = key
                self.mem[root] = self.update(self.mem[root], path, havoc_val(key, m, x)) if path else havoc_val(key, m, x)

        self.cnt = dict(entry[4])

        def iteration():
            si = self.incond
            self.incond = 0
            try:
                if not post:
                    if not cond():
                        return "exit0"
                self._cond_facts = self.facts.lins
                try:
                    body()
                except Cont:
                    pass
                except Brk:
                    return "exit"
                if inc:
                    inc()
                if post:
                    if not cond():
                        return "exit"
                return "again"
            finally:
                self.incond = si

        for rnd in range(10):
            apply(entry)
            base = self.snap()
            outs = []
            for kind, val, s in self.explore(lambda: (iteration())):
                outs.append((kind, val, s))
            new = [l for l in self.until(K, outs, base, entry) if l not in invs]
            if new:
                invs += new
                continue
            changed = False
            for kind, val, s in outs:
                if kind != "again":
                    continue
                if s[2] != base[2]:
                    self.note("monitor state changes in summarised loop " + lid[0])
                for root in list(base[0]):
                    a, b = base[0][root], s[0].get(root)
                    if b is None or a is b:
                        continue
                    out = []
                    self.restore(s)
                    self.diff(a, b, (), out)
                    for path, o, nw in out:
                        key = (root, path)
                        # find enclosing already modified key
                        enc = None
                        for q in range(len(path), -1, -1):
                            if (root, path[:q]) in mod:
                                enc = (root, path[:q])
                                break
                        cls = self.classify(o, nw)
                        if enc is None:
                            # initial value must be the entry value
                            mod[key] = cls
                            changed = True
                        elif enc == key:
                            m = mod[key]
                            if m[0] in ("ind", "it"):
                                st_ok = cls[0] == m[0] and cls[-1] == m[-1]
                                if not st_ok:
                                    mod[key] = self.lv_class(o)
                                    changed = True
                            elif m[0] == "accfix" and cls[0] != "accfix":
                                mod[key] = ("acc",)
                                changed = True
                        else:
                            if mod[enc][0] in ("ind", "it", "accfix"):
                                mod[enc] = ("lv",)
                                changed = True
            # inductions must advance on every path
            for key, m in list(mod.items()):
                if m[0] in ("ind", "it"):
                    for kind, val, s in outs:
                        if kind == "again":
                            root, path = key
                            v, w = base[0][root], s[0].get(root)
                            self.restore(s)
                            for a in path:
                                v, w = self.select(v, a), self.select(w, a)
                            if v is w or (isinstance(v, int) and v == w):
                                mod[key] = self.lv_class(v)
                                changed = True
                                break
            if not changed:
                # the invariants used must be maintained by the iteration as finally summarised
                if any(kind == "again" and s[1].decide_eq0(l) is not False for kind, _, s in outs for l in invs):
                    raise Undecided("loop invariant not maintained at " + lid[0])
                break
        else:
            raise Undecided("loop summary does not stabilise at " + lid[0])
        S = LoopSummary()
        S.lid, S.K, S.KX, S.mod, S.entry, S.base, S.loc = lid, K, KX, dict(mod), entry, base, loc
        S.fn = self.p.fns[self.frames[-1].fid]["q"]
        for kind, val, s in outs:
            S.paths.append(dict(kind=kind, val=val, facts=s[1], mem=s[0], ev=self.suffix(s[3], base[3])))
        # candidate invariants: linear facts of the condition, shifted by one iteration
        common = None
        for kind, val, s in outs:
            if kind == "again":
                new = set(s[1].lins) - set(base[1].lins)
                common = new if common is None else common & new
        exits = []
        apply(entry, True)
        for l in common or ():
            at = atoms_of(l)
            if any(a.op in ("lv", "acc") for a in at) or K not in at:
                continue
            c, d = lin_parts(l)
            k = d.pop(K)
            rest = lin_make(c, d)
            if self.facts.decide_le0(lin_add(rest, -k)):
                try:
                    self.facts.assume(le0(lin_add(rest, lin_add(lin_scale(KX, k), -k))))
                except Infeasible:
                    pass
        self.event("loop", S)
        post0 = self.snap()
        if not post:
            def leave():
                si = self.incond
                self.incond = 0
                try:
                    if cond():
                        raise Infeasible()
                finally:
                    self.incond = si
                return "exit"
            exits += self.explore(leave)
        else:
            exits.append(("exit", None, post0))
        for kind, val, s in outs:
            if kind in ("exit", "raise"):
                self.restore(s)
                self.event("loopexit", S, kind)
                exits.append((kind, val, self.snap()))
        return Exits(exits, entry[3])

    def until(self, K, outs, base, entry):
        """every iteration that goes on has seen l(K) != 0, l grows by one per iteration and is <= 0 at entry: l <= 0 at the loop head"""
        common = None
        for kind, val, s in outs:
            if kind == "again":
                new = set(s[1].nes) - set(base[1].nes)
                common = new if common is None else common & new
        r = []
        for l in common or ():
            c, d = lin_parts(l)
            if d.get(K) == -1:
                l = lin_scale(l, -1)
                c, d = lin_parts(l)
            if d.get(K) != 1 or any(a.op in ("lv", "acc") for a in d):
                continue
            del d[K]
            self.restore(entry)
            if self.decide(le0(lin_make(c, d))):
                r.append(l)
        return r

    def loop_ctx(self):
        # distinguish template instances: function id of the innermost frames
        return self.frames[-1].fid

    def classify(self, o, n):
        if isT(o, "it") and isT(n, "it"):
            if o.a[0] is n.a[0]:
                dlt = lin_add(n.a[1], o.a[1], -1)
                if isinstance(dlt, int):
                    return ("it", o.a[0], o.a[1], dlt)
            return ("lv",)
        if isT(o, "seq") or isT(n, "seq"):
            if isT(o, "seq") and isT(n, "seq") and o.a[2] is n.a[2] and (o.a[1] is n.a[1] or o.a[1] == n.a[1]):
                return ("accfix", o.a[1], o.a[2])
            if isT(n, "seq") and not isT(o, "seq") and isT(o):
                s = self.as_seq(o)
                if s.a[2] is n.a[2] and s.a[1] == n.a[1]:
                    return ("accfix", s.a[1], s.a[2])
            return ("acc",)
        if (isinstance(o, int) or isT(o) and linear(o)) and (isinstance(n, int) or isT(n) and linear(n)) and \
                not (isT(o) and o.op == "bad"):
            dlt = lin_add(n, o, -1)
            if isinstance(dlt, int) and not (isT(o) and o in BOOLT) and dlt != 0:
                return ("ind", o, dlt)
        return self.lv_class(o)

    def lv_class(self, o):
        if isT(o, "lv") and o in BOOLT:
            return ("lvbool",)
        if isT(o) and o in ATOMB:
            return ("lvint", ATOMB[o])
        if isinstance(o, int):
            return ("lvint", (0, 2**64 - 1)) if not o in (0, 1) else ("lvint", (0, 2**64 - 1))
        return ("lv",)


class Exits(list):
    def __init__(self, it, ev):
        super().__init__(it)
        self.entry_ev = ev


def entry_of(h):
    return h.entry_ev


BOOLT = set()
BOOLISH = {"sel", "init", "fresh", "lv", "lvx", "not", "eq", "le0"}
NONLIN = {"obj", "seq", "ref", "null", "empty", "uninit", "void", "closure", "it", "str"}
