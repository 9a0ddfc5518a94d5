"""Models of the parts of the C++ standard library used by the analysed code."""
from .terms import *
from .absint import Undecided, Throw, Infeasible, BOOLT, ATOMB, SIZE_MAX, NeedSummary

ORD = {0: "relaxed", 1: "consume", 2: "acquire", 3: "release", 4: "acq_rel", 5: "seq_cst"}
CONT = {"std::vector", "std::deque", "std::__debug::vector", "std::_Vector_base"}
ITER = {"__gnu_cxx::__normal_iterator", "std::_Deque_iterator"}
SP = {"std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::unique_ptr"}
WP = {"std::weak_ptr", "std::__weak_ptr"}
ATOMIC = {"std::atomic", "std::__atomic_base", "std::__atomic_float"}
OPT = {"std::optional", "std::_Optional_base", "std::_Optional_base_impl"}
STR = {"std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view"}


SPAN = ("nonstd::span_lite::span", "std::span")


class Models:
    def __init__(self):
        self.atomic_hook = None
        self.extern_hook = None

    # ---- helpers ----
    def cls(self, I, fn):
        return I.p.records[fn["cls"]] if "cls" in fn else None

    def rv(self, I, fn, args, i):
        t = fn["params"][i]["t"]
        a = args[i]
        if I.kind(t) == "ref":
            st = I.p.strip(t)
            if I.kind(st) == "fn":
                return a
            return I.scalar(I.load(a), st)
        return a

    def sub(self, r, *acc):
        return ref(r.a[0], r.a[1] + tuple(acc))

    # ---- dispatch ----
    def call(self, I, fid, fn, this, args, dest, node):
        n = fn["n"]
        if not fn["sys"]:
            r = self.external(I, fn, this, args)
            return r
        c = self.cls(I, fn)
        if fn["kind"] == "ctor":
            if dest is None:
                dest = this
            self.ctor(I, fid, fn, this, args, node, False)
            return VOID
        if c is None:
            return self.free(I, fn, args, node)
        q = c["q"]
        if q in CONT:
            return self.container(I, fn, this, args, node)
        if q in ITER:
            return self.iterator(I, fn, this, args)
        if q == "std::array":
            return self.array(I, fn, c, this, args)
        if q == "std::bitset" or q.startswith("std::_Base_bitset"):
            return self.bitset(I, fn, c, this, args)
        if q.startswith("std::bitset<") and q.endswith("reference"):
            return self.bitref(I, fn, this, args)
        if q in ATOMIC:
            return self.atomic(I, fn, this, args)
        if q in SP:
            return self.sptr(I, fn, c, this, args, node)
        if q in WP:
            return self.wptr(I, fn, this, args)
        if q in OPT or q.startswith("std::_Optional_"):
            return self.optional(I, fn, c, this, args)
        if q == "std::function":
            return self.function(I, fn, this, args, node, dest)
        if q in STR:
            return self.string(I, fn, this, args)
        if q in ("std::tuple", "std::pair") or q.startswith("std::_Tuple_impl"):
            if fn.get("op") == "=":
                I.store(this, I.load(args[0]))
                return this
            if n == "swap":
                a, b = I.load(this), I.load(args[0])
                I.store(this, b)
                I.store(args[0], a)
                return VOID
        if q in ("std::hash", "std::__hash_base"):
            return mk("uf", "hash", self.rv(I, fn, args, 0))
        if q == "std::reference_wrapper":
            if n in ("get",) or fn["kind"] == "conv":
                return I.load(this)
        r = self.misc(I, fn, c, q, n, this, args)
        if r is not None:
            return r
        raise Undecided(f"unmodelled {q}::{n} at {I.where()}")

    def misc(self, I, fn, c, q, n, this, args):
        if q == "std::type_info":
            return mk("str", "typename", this)
        if q.startswith("std::chrono") or q.startswith("std::thread"):
            if fn.get("op") == "=":
                I.store(this, I.load(args[0]) if isT(args[0], "ref") else args[0])
                return this
            return mk("opaque", q, n)
        if q in ("std::basic_ostream", "std::basic_ios", "std::ios_base", "std::basic_istream"):
            if fn.get("op") == "<<":
                I.event("out", this, self.rv(I, fn, args, 0), "endl" if isT(args[0], "fnref") else "")
                return this
            if n == "put" and isinstance(args[0], int):
                I.event("out", this, mk("str", chr(args[0] % 256)), n)
                return this
            if n in ("write", "put"):
                I.event("out", this, self.rv(I, fn, args, 0), n)
                return this
            return this if I.kind(fn["ret"]) == "ref" else mk("opaque", q, n)
        if "stringstream" in q or "stringbuf" in q or "basic_ostringstream" in q:
            return mk("str", "ss", I.load(this))
        if q == "std::map" or q == "std::unordered_map":
            if fn.get("op") == "[]":
                return ref(this.a[0], this.a[1] + (("key", args[0]),))
            return I.fresh("map", n)
        if q.startswith("std::_Rb_tree_iterator") or q.startswith("std::_Rb_tree_const_iterator"):
            if n in ("operator->", "operator*"):
                return ref(("P", I.load(this)))
            return mk("opaque", q, n)
        if q in SPAN:
            if n == "size" or n == "ssize":
                r = I.load(this)
                if isT(r, "span"):
                    return r.a[2]
                return I.scalar(mk("size", r), fn["ret"])
            if fn.get("op") == "[]":
                r = I.load(this)
                i = args[0] if not isT(args[0], "ref") else I.load(args[0])
                if isT(r, "span"):
                    return I.deref(mk("it", r.a[0], lin_add(r.a[1], i)))
                return ref(("P", mk("sel", r, ("i", i))))
            if n in ("begin", "end"):
                raise Undecided("span iteration")
        if q in ("std::exception", "std::runtime_error", "std::logic_error"):
            return mk("opaque", q, n)
        return None

    def external(self, I, fn, this, args):
        n = fn["n"]
        if n == "mark":
            a = args[0]
            if isT(a, "it"):
                a = a.a[0]
            I.event("mark", a.a[0][1])
            if self.extern_hook:
                self.extern_hook(I, "mark", a.a[0][1])
            return VOID
        if n == "observe":
            a = args[0]
            if isT(a, "it"):
                a = a.a[0]
            vals = []
            for p, x in zip(fn["params"][1:], args[1:]):
                v = I.scalar(I.peek(x), I.p.strip(p["t"]))
                vals.append((x, v))
            I.event("observe", a.a[0][1], tuple(vals))
            return VOID
        if n == "unknown":
            return 1 - I.choose(2)
        if fn["kind"] == "dtor":
            return VOID
        raise Undecided(f"function without body {fn['q']} at {I.where()}")

    # ---- constructors of library classes ----
    def ctor(self, I, fid, fn, dest, args, node, base):
        c = self.cls(I, fn)
        q = c["q"]
        sp = fn.get("special")
        if not fn["sys"]:
            if sp == "defctor":
                if not base:
                    I.store(dest, ZERO)
                return
            raise Undecided("constructor without body " + fn["q"])
        if q in SP:
            return self.sptr_ctor(I, fn, dest, args)
        if q in WP:
            v = I.load(args[0]) if args else NULL
            if sp not in ("copyctor", "movector") and v is not NULL:
                v = mk("wp", v)
            I.store(dest, v if args else mk("wp", NULL))
            return
        if sp in ("copyctor", "movector"):
            v = I.load(args[0])
            if q in CONT or q in OPT or q in ("std::tuple", "std::pair"):
                v = self.copied(I, v)
            if base:
                I.merge_base(dest, v)
            else:
                I.store(dest, v)
            return
        if q in CONT:
            ps = [p for p in fn["params"] if (I.p.rec(p["t"]) or {"q": ""})["q"] != "std::allocator"
                  and "allocator_type" != I.p.types[I.p.strip(p["t"])]["s"].split("::")[-1]]
            if not ps:
                I.store(dest, seq(EMPTY, 0, 0, ()))
                return
            a = args[0]
            if I.kind(ps[0]["t"]) == "int":
                v = ZERO
                if len(ps) > 1:
                    v = self.rv(I, fn, args, 1)
                I.store(dest, seq(ZERO, 0, a, (("fill", 0, a, v),)))
                return
            if isT(a, "it") and isT(args[1], "it"):
                src = I.as_seq(I.load(a.a[0]))
                I.store(dest, seq(src.a[0], a.a[1], args[1].a[1], src.a[3]))
                return
            if isT(a, "seq"):
                I.store(dest, seq(a.a[0], a.a[1], a.a[2], a.a[3]))
                return
            raise Undecided("container constructor at " + I.where())
        if q in ITER:
            I.store(dest, I.load(args[0]) if isT(args[0], "ref") else args[0])
            return
        if q == "std::bitset":
            N = int(c["targs"][0]["i"])
            bits = {("b", k): 0 for k in range(N)}
            if args:
                a = args[0]
                if isinstance(a, int):
                    bits = {("b", k): (a >> k) & 1 for k in range(N)}
                else:
                    raise Undecided("bitset from symbolic value at " + I.where())
            cur = I.peek(dest) if base else None
            d = dict(cur.d) if base and isT(cur, "obj") else {}
            d.update(bits)
            I.store(dest, obj(UNINIT, d))
            return
        if q == "std::array":
            I.store(dest, seq(UNINIT, 0, int(c["targs"][1]["i"]), ()))
            return
        if q in ATOMIC:
            v = args[0] if args else 0
            if base:
                I.poke(dest, v)
            else:
                I.poke(dest, v)
            return
        if q == "std::function":
            if not args or args[0] is NULL:
                I.store(dest, NULL)
                return
            a = args[0]
            v = I.load(a) if isT(a, "ref") else a
            I.store(dest, v if isT(v, "fnobj") else mk("fnobj", v))
            return
        if q in OPT or q.startswith("std::_Optional_"):
            if not args or "nullopt" in I.p.types[I.p.strip(fn["params"][0]["t"])]["s"]:
                I.store(dest, obj(UNINIT, {"has": 0}))
                return
            a = args[0]
            pt = I.p.types[I.p.strip(fn["params"][0]["t"])]
            if pt["k"] == "rec" and I.p.records[pt["rec"]]["q"] == "std::optional":
                I.store(dest, self.copied(I, I.load(a)))
                return
            v = I.load(a) if isT(a, "ref") and I.kind(fn["params"][0]["t"]) == "ref" else a
            et = c["targs"][0]
            src = pt
            if I.p.types[et]["k"] == "rec" and pt["k"] == "rec" and pt["rec"] != I.p.types[et]["rec"]:
                raise Undecided("converting optional constructor at " + I.where())
            I.store(dest, obj(UNINIT, {"has": 1, "val": self.copied(I, v)}))
            return
        if q in ("std::tuple",):
            d = {}
            for i, p in enumerate(fn["params"]):
                d[i] = self.copied(I, self.rv(I, fn, args, i))
            I.store(dest, obj(UNINIT, d) if args else ZERO)
            return
        if q == "std::pair":
            d = {}
            for i, nm in enumerate(("first", "second")):
                if i < len(args):
                    d[nm] = self.copied(I, self.rv(I, fn, args, i))
            I.store(dest, obj(UNINIT, d) if args else ZERO)
            return
        if q in STR:
            if not args:
                v = mk("str", "")
            else:
                a = args[0]
                if isT(a, "it"):
                    a = a.a[0]
                if isT(a, "ref") and a.a[0][0] == "S":
                    v = mk("str", a.a[0][1])
                elif isT(a, "ref"):
                    v = I.load(a)
                else:
                    v = mk("str", "of", a)
            I.store(dest, v)
            return
        if q in ("std::runtime_error", "std::logic_error", "std::out_of_range", "std::invalid_argument", "std::exception",
                 "std::overflow_error", "std::length_error", "std::range_error", "std::domain_error"):
            I.store(dest, mk("opaque", q))
            return
        if q in ("std::allocator", "std::iterator"):
            return
        if q in SPAN:
            if not args:
                I.store(dest, mk("span", NULL, 0, 0))
                return
            if len(args) >= 2 and isT(args[0], "it"):
                n = args[1]
                if isT(n, "ref"):
                    n = I.load(n)
                I.event("span", args[0].a[0], args[0].a[1], n)
                I.store(dest, mk("span", args[0].a[0], args[0].a[1], n))
                return
        if q.startswith("std::chrono") or q.startswith("std::thread") or "stringstream" in q or q in (
                "std::map", "std::mutex", "std::set", "std::unordered_map"):
            I.store(dest, mk("opaque", q))
            return
        if q == "std::reference_wrapper":
            I.store(dest, args[0])
            return
        raise Undecided(f"unmodelled constructor {q} at {I.where()}")

    def destroy(self, I, r, rec):
        q = rec["q"]
        if q in SP:
            if q == "std::unique_ptr":
                raise Undecided("unique_ptr")
            self.release(I, I.peek(r))
            return
        if q in OPT:
            v = I.peek(r)
            has = I.select(v, "has") if isT(v) else 0
            if not I.needs_dtor(rec["targs"][0]):
                return
            if I.truth(has):
                I.destroy(self.sub(r, "val"), rec["targs"][0])
            return
        if q == "std::pair":
            for nm, t in zip(("second", "first"), reversed(rec["targs"])):
                if I.needs_dtor(t):
                    I.destroy(self.sub(r, nm), t)
            return
        if q == "std::tuple":
            for i, t in enumerate(rec["targs"]):
                if I.needs_dtor(t):
                    I.destroy(self.sub(r, i), t)
            return
        if q in CONT and I.needs_dtor(rec["targs"][0]):
            s = I.as_seq(I.peek(r))
            if isinstance(s.a[1], int) and isinstance(s.a[2], int) and s.a[2] - s.a[1] <= 16:
                for k in range(s.a[1], s.a[2]):
                    I.destroy(self.sub(r, ("i", k)), rec["targs"][0])
        if q == "std::function":
            v = I.peek(r)
            if isT(v, "fnobj"):
                self.drop_value(I, v.a[0])

    def drop_value(self, I, v):
        """destroy shared pointers held inside a value (closures)"""
        if isT(v, "obj"):
            for k, x in v.d.items():
                if isT(x, "ref") and ("rc", x.a[0]) in I.mem and isT(I.closure_of(v)) and self.owns(I, v, k):
                    self.release(I, x)

    def owns(self, I, v, k):
        n = I.lambdas[I.closure_of(v).a[0]]
        for c in n[5]:
            if c["f"] == k and c["k"] == "copy":
                r = I.p.rec(c["i"][1])
                return bool(r and r["q"] in SP)
        return False

    # ---- shared pointers (value = pointer term) ----
    def copied(self, I, v):
        """copy of a class value: bump the counts of shared pointers inside"""
        if isT(v, "ref") and ("rc", v.a[0]) in I.mem:
            I.mem[("rc", v.a[0])] += 1
        elif isT(v, "obj"):
            for k, x in v.d.items():
                if k != "instance" and k != "ecs":
                    self.copied(I, x)
        return v

    def addref(self, I, v):
        if isT(v, "ref") and ("rc", v.a[0]) in I.mem:
            I.mem[("rc", v.a[0])] += 1
        return v

    def release(self, I, v):
        if isT(v, "ref") and ("rc", v.a[0]) in I.mem:
            k = ("rc", v.a[0])
            I.mem[k] -= 1
            if I.mem[k] == 0:
                t = I.mem.get(("ty", v.a[0]))
                I.event("free", v.a[0])
                if t is not None:
                    I.destroy(v, t)
                I.mem.pop(v.a[0], None)
                I.mem.pop(k, None)
                I.mem.pop(("ty", v.a[0]), None)

    def sptr_ctor(self, I, fn, dest, args):
        if not args:
            I.store(dest, NULL)
            return
        a = args[0]
        p = I.p.types[fn["params"][0]["t"]]
        if p["k"] == "ref":
            v = I.load(a)
            if v is ZERO:
                v = NULL
            if isT(v, "wp"):
                v = v.a[0]
            if p.get("rv"):
                I.store(dest, v)
                I.store(a, NULL)
                return
            self.addref(I, v)
            I.store(dest, v)
            return
        if p["k"] == "nullptr":
            I.store(dest, NULL)
            return
        v = I.load(a) if isT(a, "ref") and p["k"] == "ref" else a
        if isT(v, "ref") and not v.a[1]:
            if I.mem.get(("rc", v.a[0]), 0) > 0:
                # a second, independent owner of an object that is already owned
                I.event("rawshare", v.a[0])
                from .scenario import Stop
                raise Stop()
            new = [e for e in I.events() if e[0] == "heapnew" and e[1] == v.a[0]]
            if new and len(args) == 1:
                I.mem[("rc", v.a[0])] = 1
                I.mem[("ty", v.a[0])] = new[-1][2]
                I.store(dest, v)
                return
        raise Undecided("shared_ptr from raw pointer at " + I.where())

    def ptrval(self, I, r):
        v = I.load(r)
        return NULL if v is ZERO else v

    def sptr(self, I, fn, c, this, args, node):
        n, op = fn["n"], fn.get("op")
        if n in ("get",) or op in ("->", "*"):
            v = self.ptrval(I, this)
            if I.kind(fn["ret"]) == "ref":
                return I.deref(v)
            return v
        if fn["kind"] == "conv":
            v = self.ptrval(I, this)
            return 0 if v is NULL else 1 if isT(v, "ref") else tnot(teq(v, NULL))
        if op == "=":
            p = I.p.types[fn["params"][0]["t"]]
            if p["k"] == "nullptr":
                old = self.ptrval(I, this)
                I.store(this, NULL)
                self.release(I, old)
                return this
            v = self.ptrval(I, args[0])
            old = self.ptrval(I, this)
            if p.get("rv"):
                I.store(args[0], NULL)
            else:
                self.addref(I, v)
            I.store(this, v)
            self.release(I, old)
            return this
        if n == "reset":
            old = self.ptrval(I, this)
            if args:
                raise Undecided("shared_ptr::reset(ptr)")
            I.store(this, NULL)
            self.release(I, old)
            return VOID
        if n == "swap":
            a, b = self.ptrval(I, this), self.ptrval(I, args[0])
            I.store(this, b)
            I.store(args[0], a)
            return VOID
        if n == "use_count":
            v = self.ptrval(I, this)
            if isT(v, "ref") and ("rc", v.a[0]) in I.mem:
                return I.mem[("rc", v.a[0])]
            return mk("usecount", v)
        if n == "unique":
            v = self.ptrval(I, this)
            if isT(v, "ref") and ("rc", v.a[0]) in I.mem:
                return int(I.mem[("rc", v.a[0])] == 1)
        if op == "[]":
            raise Undecided("shared_ptr[]")
        raise Undecided("shared_ptr::" + n)

    def wptr(self, I, fn, this, args):
        n = fn["n"]
        v = I.load(this)
        if v is ZERO:
            v = mk("wp", NULL)
        tgt = v.a[0] if isT(v, "wp") else mk("sel", v, "locked")
        if isT(tgt, "ref") and tgt.a[0][0] == "H" and ("rc", tgt.a[0]) not in I.mem:
            tgt = NULL
        if n == "lock":
            self.addref(I, tgt)
            return tgt
        if n == "expired":
            return 1 if tgt is NULL else 0 if isT(tgt, "ref") else teq(tgt, NULL)
        if n == "reset":
            I.store(this, mk("wp", NULL))
            return VOID
        if fn.get("op") == "=":
            w = I.load(args[0])
            p = I.p.rec(fn["params"][0]["t"])
            I.store(this, w if p and p["q"] in WP else mk("wp", w))
            return this
        if n == "swap":
            w = I.load(args[0])
            I.store(this, w)
            I.store(args[0], v)
            return VOID
        raise Undecided("weak_ptr::" + n)

    def make_shared(self, I, fn, args, node):
        em = node[6] if node is not None and len(node) > 6 else None
        t = em["t"] if em else fn["targs"][0]
        k = 0
        site = node[3] if node is not None else 0
        while ("H", site, k) in I.mem or ("Hd", site, k) in I.mem:
            k += 1
        root = ("H", site, k)
        r = ref(root)
        I.mem[root] = UNINIT
        I.mem[("ty", root)] = t
        try:
            self.construct(I, r, t, em.get("ctor") if em else None, fn, args)
        except Throw:
            for x in (root, ("ty", root)):
                I.mem.pop(x, None)
            raise
        I.mem[("rc", root)] = 1
        I.event("heapnew", root, t)
        return r

    def construct(self, I, dest, t, ctor, fn, args, first=0):
        """construct a t at dest from forwarded args (all refs or values)"""
        if I.kind(t) != "rec":
            if len(args) > first:
                I.store(dest, self.fwd(I, fn, args, first, t))
            else:
                I.store(dest, 0 if I.kind(t) in ("int", "bool") else NULL if I.kind(t) == "ptr" else ZERO)
            return
        rec = I.p.rec(t)
        if ctor is None:
            if len(args) == first:
                I.store(dest, seq(EMPTY, 0, 0, ()) if rec["q"] in CONT else ZERO)
                return
            if len(args) == first + 1:
                I.store(dest, self.copied(I, I.load(args[first]) if isT(args[first], "ref") else args[first]))
                return
            raise Undecided("aggregate emplace at " + I.where())
        cf = I.p.fns[ctor]
        cargs = []
        for i, p in enumerate(cf["params"]):
            if first + i >= len(args):
                raise Undecided("default argument in emplaced constructor at " + I.where())
            cargs.append(self.conv_arg(I, fn, args, first + i, p["t"]))
        if cf["sys"] or not cf.get("hasbody"):
            if cf.get("special") in ("copyctor", "movector"):
                I.store(dest, self.copied(I, I.load(cargs[0])))
                if cf.get("special") == "movector" and rec["q"] in SP:
                    pass
                return
            if not cf["sys"] and not cargs:
                I.store(dest, ZERO)
                return
            self.ctor(I, ctor, cf, dest, cargs, None, False)
            return
        if cf.get("trivial") and cf.get("special") in ("copyctor", "movector"):
            I.store(dest, I.load(cargs[0]))
            return
        I.poke(dest, obj(UNINIT, {}))
        I.run_ctor(ctor, dest, cargs, I.curloc)

    def fwd(self, I, fn, args, i, t):
        ps = fn["params"]
        if i < len(ps):
            v = self.rv(I, fn, args, i)
            st = I.p.strip(ps[i]["t"])
        else:
            v, st = args[i], None
        if st is not None and I.kind(st) in ("int", "bool") and I.kind(t) in ("int", "bool"):
            v = I.int_cast(v, st, t)
        return v

    def conv_arg(self, I, fn, args, i, pt):
        """argument i of a forwarding function as argument for a parameter of type pt"""
        k = I.kind(pt)
        ps = fn["params"]
        at = ps[i]["t"] if i < len(ps) else None
        if k == "ref":
            st = I.p.strip(pt)
            if at is not None and I.kind(at) == "ref":
                if I.kind(st) in ("int", "bool") and I.p.types[I.p.strip(at)]["s"].replace("const ", "") != I.p.types[st]["s"].replace("const ", ""):
                    return I.temp_of(self.fwd(I, fn, args, i, st))
                return args[i]
            return I.temp_of(args[i])
        if k == "rec":
            return self.copied(I, self.rv(I, fn, args, i))
        return self.fwd(I, fn, args, i, pt)

    # ---- std::function ----
    def function(self, I, fn, this, args, node, dest):
        if fn.get("op") == "()":
            f = I.peek(this)
            if isT(f, "fnobj"):
                ats = [p["t"] for p in fn["params"]]
                return I.invoke(f, args, I.curloc, dest, ats)
            raise Undecided("call of unknown std::function at " + I.where())
        if fn["kind"] == "conv":
            v = I.load(this)
            return 0 if v is NULL or v is ZERO else 1
        if fn.get("op") == "=":
            v = I.load(args[0]) if isT(args[0], "ref") else args[0]
            I.store(this, v if isT(v, "fnobj") or v is NULL else mk("fnobj", v))
            return this
        raise Undecided("std::function::" + fn["n"])

    # ---- optional ----
    def optional(self, I, fn, c, this, args):
        n, op = fn["n"], fn.get("op")
        if n == "has_value" or fn["kind"] == "conv":
            return I.scalar(I.select(I.load(this), "has"), fn["ret"])
        if op in ("*", "->"):
            return self.sub(this, "val")
        if n == "value":
            if not I.truth(I.select(I.load(this), "has")):
                raise Throw(None, I.curloc)
            return self.sub(this, "val")
        if n == "reset":
            self.destroy(I, this, c)
            I.store(this, obj(UNINIT, {"has": 0}))
            return VOID
        if op == "=":
            v = I.load(args[0]) if isT(args[0], "ref") else args[0]
            p = I.p.rec(fn["params"][0]["t"])
            new = None
            if p and p["q"] == "std::optional":
                new = self.copied(I, v)
            elif p and p["q"] == "std::nullopt_t":
                new = obj(UNINIT, {"has": 0})
            else:
                new = obj(UNINIT, {"has": 1, "val": self.copied(I, v)})
            self.destroy(I, this, c)
            I.store(this, new)
            return this
        raise Undecided("optional::" + n)

    # ---- array ----
    def array(self, I, fn, c, this, args):
        n, op = fn["n"], fn.get("op")
        N = int(c["targs"][1]["i"])
        if n in ("size", "max_size"):
            return N
        if n == "empty":
            return int(N == 0)
        if op == "[]" or n == "at":
            i = self.rv(I, fn, args, 0)
            if n == "at" and not (I.truth(tlt(i, N))):
                raise Throw(None, I.curloc)
            self.array_idx(I, this, i, N)
            r = self.sub(this, ("i", i))
            return r if I.kind(fn["ret"]) == "ref" else I.load(r)
        if n in ("begin", "cbegin", "data"):
            return mk("it", this, 0)
        if n in ("end", "cend"):
            return mk("it", this, N)
        if n == "front":
            return self.sub(this, ("i", 0))
        if n == "back":
            return self.sub(this, ("i", N - 1))
        if n == "fill":
            v = self.rv(I, fn, args, 0)
            I.store(this, seq(ZERO, 0, N, (("fill", 0, N, v),)))
            return VOID
        if op == "=":
            I.store(this, I.load(args[0]))
            return this
        raise Undecided("array::" + n)

    def array_idx(self, I, this, i, N):
        if isinstance(i, int):
            ok = 0 <= i < N
        else:
            ok = I.decide(tlt(i, N)) and I.decide(tle(0, i))
        I.event("idx", this, i, 1 if ok else 0, N)

    # ---- bitset ----
    def nbits(self, c):
        return int(c["targs"][0]["i"])

    def bit(self, I, r, k):
        v = I.load(self.sub(r, ("b", k)))
        if v is ZERO:
            return 0
        if isT(v):
            BOOLT.add(v)
            ATOMB.setdefault(v, (0, 1))
        return v

    def bitset(self, I, fn, c, this, args):
        n, op = fn["n"], fn.get("op")
        N = self.nbits(c)
        if op == "[]" or n == "test":
            k = args[0]
            if not isinstance(k, int):
                k = self.concretise(I, k, N)
            if k >= N or k < 0:
                I.event("bitoob", this, k)
                raise Undecided("bit index out of range at " + I.where())
            if I.kind(fn["ret"]) == "bool":
                return self.bit(I, this, k)
            return mk("bitref", self.sub(this, ("b", k)))
        if n == "size":
            return N
        if n in ("all", "any", "none"):
            for k in range(N):
                b = I.truth(self.bit(I, this, k))
                if n == "all" and not b:
                    return 0
                if n != "all" and b:
                    return int(n == "any")
            return int(n != "any")
        if n == "count":
            return sum(int(I.truth(self.bit(I, this, k))) for k in range(N))
        if n in ("set", "reset", "flip"):
            if not args:
                for k in range(N):
                    v = 1 if n == "set" else 0 if n == "reset" else int(not I.truth(self.bit(I, this, k)))
                    I.store(self.sub(this, ("b", k)), v)
                return this
            k = args[0] if isinstance(args[0], int) else self.concretise(I, args[0], N)
            v = args[1] if n == "set" and len(args) > 1 else 1 if n == "set" else 0 if n == "reset" else \
                int(not I.truth(self.bit(I, this, k)))
            I.store(self.sub(this, ("b", k)), v)
            return this
        if op == "=":
            o = I.load(args[0])
            cur = I.peek(this)
            if isT(cur, "obj") and "generation" in cur.d or isT(o, "obj") and "generation" in o.d:
                for k in range(N):
                    I.store(self.sub(this, ("b", k)), I.select(o, ("b", k)))
            else:
                I.store(this, o)
            return this
        if op in ("==", "!="):
            eq = all(I.truth(self.bit(I, this, k)) == I.truth(self.bit(I, args[0], k)) for k in range(N))
            return int(eq == (op == "=="))
        if op in ("&=", "|=", "^="):
            for k in range(N):
                a, b = I.truth(self.bit(I, this, k)), I.truth(self.bit(I, args[0], k))
                I.store(self.sub(this, ("b", k)), int(a & b if op == "&=" else a | b if op == "|=" else a ^ b))
            return this
        if op == "~":
            return obj(UNINIT, {("b", k): int(not I.truth(self.bit(I, this, k))) for k in range(N)})
        if n in ("to_ullong", "to_ulong"):
            return sum(int(I.truth(self.bit(I, this, k))) << k for k in range(N))
        raise Undecided("bitset::" + n)

    def concretise(self, I, k, N):
        for i in range(N):
            if I.truth(teq(k, i)):
                return i
        raise Undecided("bit index out of range at " + I.where())

    def bitref(self, I, fn, this, args):
        op = fn.get("op")
        v = I.peek(this)
        if not isT(v, "bitref"):
            raise Undecided("bitset reference")
        r = v.a[0]
        if fn["kind"] == "conv":
            x = I.load(r)
            if x is ZERO:
                return 0
            if isT(x):
                BOOLT.add(x)
                ATOMB.setdefault(x, (0, 1))
            return x
        if op == "=":
            p = fn["params"][0]["t"]
            if I.kind(p) == "bool":
                x = args[0]
            else:
                s = I.load(args[0])
                x = I.load(s.a[0])
                x = 0 if x is ZERO else x
            I.store(r, x)
            return this
        if op == "~":
            return int(not I.truth(I.load(r)))
        if fn["n"] == "flip":
            I.store(r, int(not I.truth(I.load(r))))
            return this
        raise Undecided("bitset reference " + fn["n"])

    # ---- atomics ----
    def atomic(self, I, fn, this, args):
        n, op = fn["n"], fn.get("op")
        vals = []
        for i, p in enumerate(fn["params"]):
            vals.append(args[i])
        if self.atomic_hook:
            r = self.atomic_hook(I, fn, this, args)
            if r is not None:
                return r[0]
        I.atomic_now = this  # the access hook tells atomic accesses from others by it
        try:
            return self.atomic_op(I, fn, this, args)
        finally:
            I.atomic_now = None

    def atomic_op(self, I, fn, this, args):
        n, op = fn["n"], fn.get("op")
        rt = fn["ret"]

        def rd():
            v = I.load(this)
            return 0 if v is ZERO else I.scalar(v, rt) if I.kind(rt) in ("int", "bool") else v

        def order(i):
            return ORD.get(args[i], "?") if i < len(args) and isinstance(args[i], int) else "seq_cst"

        if n == "load" or fn["kind"] == "conv":
            I.event("atomic", "load", this, order(0) if n == "load" else "seq_cst")
            return rd()
        if n == "store" or op == "=":
            I.event("atomic", "store", this, args[0], order(1) if n == "store" else "seq_cst")
            I.store(this, args[0])
            return args[0] if op == "=" else VOID
        if n == "exchange":
            old = rd()
            I.event("atomic", "rmw", this, args[0], order(1))
            I.store(this, args[0])
            return old
        if n in ("fetch_add", "fetch_sub") or op in ("++", "--", "+=", "-="):
            old = rd()
            o = I.p.types[rt]
            d = args[0] if n.startswith("fetch") or op in ("+=", "-=") else 1
            plus = n == "fetch_add" or op in ("++", "+=")
            if not linear(old):
                raise Undecided("atomic arithmetic")
            new = I.wrap(lin_add(old, d, 1 if plus else -1), o)
            I.event("atomic", "rmw", this, new, order(1))
            I.store(this, new)
            if n.startswith("fetch") or (op in ("++", "--") and len(fn["params"]) == 1):
                return old
            return new
        if n in ("compare_exchange_strong", "compare_exchange_weak"):
            old = rd()
            exp = I.load(args[0])
            if n.endswith("weak") and I.choose(2) == 1:
                I.store(args[0], old)
                return 0
            if I.truth(I.eqterm(old, exp)):
                I.event("atomic", "rmw", this, args[1], order(2))
                I.store(this, args[1])
                return 1
            I.store(args[0], old)
            return 0
        if n in ("notify_all", "notify_one"):
            I.event("atomic", n, this)
            return VOID
        if n == "wait":
            I.event("atomic", "wait", this, args[0])
            return VOID
        if n in ("is_lock_free",):
            return 1
        raise Undecided("atomic::" + n)

    # ---- containers ----
    def elem_t(self, I, fn):
        c = self.cls(I, fn)
        return c["targs"][0]

    def default_elem(self, I, fn):
        """a value-initialised element of a container"""
        t = self.elem_t(I, fn)
        if I.kind(t) != "rec":
            return ZERO
        q = I.p.rec(t)["q"]
        name = q + "::" + q.split("::")[-1].split("<")[0]
        for i, f in enumerate(I.p.fns):
            if f and f["q"] == name and not f["params"] and f.get("hasbody") and not f["sys"]:
                root = I.new_temp(t)
                self.construct(I, ref(root), t, i, fn, [])
                v = I.mem.pop(root)
                if isT(v, "obj") and v.a[0] in (UNINIT, ZERO) and v.a[1] and all(x == 0 or x == ZERO for _, x in v.a[1]):
                    return ZERO
                return v
        return ZERO

    def push(self, I, this, v, front=False):
        s = I.as_seq(I.load(this))
        I.event("push", this, lin_add(s.a[2], s.a[1], -1), v)
        if front:
            i = lin_add(s.a[1], -1)
            self.setseq(I, this, seq(s.a[0], i, s.a[2], s.a[3] + (("st", i, v),)))
            return self.sub(this, ("i", i))
        self.setseq(I, this, seq(s.a[0], s.a[1], lin_add(s.a[2], 1), s.a[3] + (("st", s.a[2], v),)))
        return self.sub(this, ("i", s.a[2]))

    def setseq(self, I, this, s):
        I.store(this, s)

    def elements(self, I, s):
        if isinstance(s.a[1], int) and isinstance(s.a[2], int) and s.a[2] - s.a[1] <= 64:
            return [I.sel_seq(s, k) for k in range(s.a[1], s.a[2])]
        return None

    def container(self, I, fn, this, args, node):
        n, op = fn["n"], fn.get("op")
        if op == "=":
            p = I.p.rec(fn["params"][0]["t"])
            a = args[0]
            v = I.load(a) if isT(a, "ref") else a
            if v is ZERO:
                v = seq(EMPTY, 0, 0, ())
            I.event("assign", this, v)
            I.store(this, v)
            if I.p.types[fn["params"][0]["t"]].get("rv") and isT(a, "ref") and a.a[0][0] not in ("T",):
                I.store(a, seq(EMPTY, 0, 0, ()))
            return this
        if n == "swap":
            a, b = I.load(this), I.load(args[0])
            I.event("swap", this, args[0])
            I.store(this, b)
            I.store(args[0], a)
            return VOID
        if n == "clear":
            I.load(this)
            I.store(this, seq(EMPTY, 0, 0, ()))
            return VOID
        s = I.as_seq(I.load(this))
        size = lin_add(s.a[2], s.a[1], -1)
        if n == "size":
            return size
        if n == "empty":
            return teq(size, 0)
        if n == "capacity" and linear(size):
            r = mk("cap", s.a[0] if isT(s.a[0]) else this, size)
            from .absint import ATOMB
            ATOMB[r] = (0, 2**60)
            I.facts.assume(tle(size, r))
            return r
        if n in ("capacity", "max_size"):
            return mk("opaque", n, this)
        if n in ("reserve", "shrink_to_fit"):
            I.event("reserve", this)
            return VOID
        if op == "[]" or n == "at":
            i = self.rv(I, fn, args, 0)
            if not isinstance(i, int) and not linear(i):
                raise Undecided("container index at " + I.where())
            i = I.u64norm(i)
            ok = I.decide(tlt(i, size))
            if n == "at":
                if not I.truth(tlt(i, size)):
                    raise Throw(None, I.curloc)
                ok = 1
            I.event("idx", this, i, 1 if ok else 0, size)
            return self.sub(this, ("i", lin_add(s.a[1], i)))
        if n in ("begin", "cbegin", "data"):
            return mk("it", this, s.a[1])
        if n in ("end", "cend"):
            return mk("it", this, s.a[2])
        if n in ("rbegin", "crbegin"):
            return obj(UNINIT, {"current": mk("it", this, s.a[2])})
        if n in ("rend", "crend"):
            return obj(UNINIT, {"current": mk("it", this, s.a[1])})
        if n in ("front", "back", "pop_front", "pop_back"):
            ok = I.decide(tlt(0, size))
            i = s.a[1] if n.endswith("front") else lin_add(s.a[2], -1)
            I.event("idx", this, i, 1 if ok else 0, size)
            if n.startswith("pop"):
                ops = s.a[3]
                if n == "pop_front":
                    new = seq(s.a[0], lin_add(s.a[1], 1), s.a[2], ops)
                else:
                    new = seq(s.a[0], s.a[1], lin_add(s.a[2], -1), ops)
                I.event("pop", this, n)
                self.setseq(I, this, new)
                return VOID
            return self.sub(this, ("i", i))
        if n in ("push_back", "push_front"):
            v = self.copied(I, self.rv(I, fn, args, 0))
            self.push(I, this, v, n == "push_front")
            return VOID
        if n in ("emplace_back", "emplace_front"):
            t = self.elem_t(I, fn)
            em = node[9] if node is not None and len(node) > 9 else None
            root = I.new_temp(t)
            self.construct(I, ref(root), t, em.get("ctor") if em else None, fn, args)
            v = I.mem.pop(root)
            return self.push(I, this, v, n == "emplace_front")
        if n == "resize":
            new = args[0]
            if I.truth(tle(new, size)):
                self.setseq(I, this, seq(s.a[0], s.a[1], lin_add(s.a[1], new), s.a[3]))
            else:
                fill = self.default_elem(I, fn)
                if len(args) > 1:
                    fill = self.rv(I, fn, args, 1)
                ne = lin_add(s.a[1], new)
                self.setseq(I, this, seq(s.a[0], s.a[1], ne, s.a[3] + (("fill", s.a[2], ne, fill),)))
            I.event("resize", this, new)
            return VOID
        if n == "assign":
            if isT(args[0], "it") and isT(args[1], "it"):
                src = I.as_seq(I.load(args[0].a[0]))
                I.store(this, seq(src.a[0], args[0].a[1], args[1].a[1], src.a[3]))
                return VOID
            if isT(args[0], "seq"):
                I.store(this, args[0])
                return VOID
            v = self.rv(I, fn, args, 1)
            I.store(this, seq(ZERO, 0, args[0], (("fill", 0, args[0], v),)))
            return VOID
        if n == "insert":
            pos = args[0]
            if isT(pos, "it") and isT(args[1], "it") and len(args) == 3:
                src = I.as_seq(I.load(args[1].a[0]))
                w = seq(src.a[0], args[1].a[1], args[2].a[1], src.a[3])
                I.event("append", this, args[1], args[2], pos, s.a[2])
                if not I.truth(teq(pos.a[1], s.a[2])):
                    els, add = self.elements(I, s), self.elements(I, w)
                    if els is None or add is None:
                        self.setseq(I, this, seq(mk("inserted", s, pos.a[1], w), 0, lin_add(lin_add(size, w.a[2]), w.a[1], -1), ()))
                        return mk("it", this, pos.a[1])
                    k = pos.a[1] - s.a[1]
                    self.setlist(I, this, els[:k] + add + els[k:])
                    return mk("it", this, k)
                cnt = lin_add(w.a[2], w.a[1], -1)
                self.setseq(I, this, seq(s.a[0], s.a[1], lin_add(s.a[2], cnt), s.a[3] + (("app", s.a[2], w),)))
                return mk("it", this, s.a[2])
            if isT(pos, "it") and len(args) == 2:
                v = self.copied(I, self.rv(I, fn, args, 1))
                if I.truth(teq(pos.a[1], s.a[2])):
                    self.push(I, this, v)
                    return mk("it", this, s.a[2])
                if I.truth(teq(pos.a[1], s.a[1])):
                    self.push(I, this, v, True)
                    return mk("it", this, lin_add(s.a[1], -1))
            raise Undecided("insert at " + I.where())
        if n == "erase":
            a = args[0]
            if len(args) == 2:
                b = args[1]
                if I.truth(teq(a.a[1], b.a[1])):
                    return a
                if I.truth(teq(b.a[1], s.a[2])):
                    I.event("erase", this, a.a[1], b.a[1])
                    self.setseq(I, this, seq(s.a[0], s.a[1], a.a[1], s.a[3]))
                    return a
                els = self.elements(I, s)
                if els is not None and isinstance(a.a[1], int) and isinstance(b.a[1], int):
                    self.setlist(I, this, els[: a.a[1] - s.a[1]] + els[b.a[1] - s.a[1]:])
                    return mk("it", this, a.a[1] - s.a[1])
                if I.truth(teq(a.a[1], s.a[1])):
                    self.setseq(I, this, seq(s.a[0], b.a[1], s.a[2], s.a[3]))
                    return b
            else:
                els = self.elements(I, s)
                if els is not None and isinstance(a.a[1], int):
                    I.event("erase", this, a.a[1], a.a[1] + 1)
                    k = a.a[1] - s.a[1]
                    self.setlist(I, this, els[:k] + els[k + 1:])
                    return mk("it", this, k)
                I.event("erase1", this, a.a[1])
                self.setseq(I, this, seq(mk("erased", s, a.a[1]), 0, lin_add(size, -1), ()))
                return mk("it", this, lin_add(a.a[1], s.a[1], -1))
            raise Undecided("erase at " + I.where())
        if n in ("get_allocator",):
            return mk("opaque", n)
        raise Undecided("container::" + n)

    def setlist(self, I, this, els):
        self.setseq(I, this, seq(EMPTY, 0, len(els), tuple(("st", k, e) for k, e in enumerate(els))))

    def iterator(self, I, fn, this, args):
        n, op = fn["n"], fn.get("op")
        v = I.load(this)
        if not isT(v, "it"):
            raise Undecided("unknown iterator at " + I.where())
        if op == "*" or op == "->":
            r = I.it_ref(v)
            return r
        if op in ("++", "--"):
            new = mk("it", v.a[0], lin_add(v.a[1], 1, 1 if op == "++" else -1))
            I.store(this, new)
            return v if fn["params"] else this
        if op in ("+=", "-="):
            d = self.rv(I, fn, args, 0)
            I.store(this, mk("it", v.a[0], lin_add(v.a[1], self.off(d), 1 if op == "+=" else -1)))
            return this
        if op in ("+", "-"):
            d = self.rv(I, fn, args, 0)
            if isT(d, "it"):
                return lin_add(v.a[1], d.a[1], -1)
            return mk("it", v.a[0], lin_add(v.a[1], self.off(d), 1 if op == "+" else -1))
        if op == "[]":
            d = self.rv(I, fn, args, 0)
            return I.it_ref(mk("it", v.a[0], lin_add(v.a[1], self.off(d))))
        if op == "=":
            I.store(this, I.load(args[0]))
            return this
        if n == "base":
            return this if I.kind(fn["ret"]) == "ref" else v
        if op in ("==", "!="):
            w = I.load(args[0])
            return I.compare(op, v, w)
        raise Undecided("iterator::" + n)

    def off(self, d):
        while isT(d) and d.op in ("u64", "s64"):
            d = d.a[0]
        return d

    def string(self, I, fn, this, args):
        n, op = fn["n"], fn.get("op")
        if op in ("=", "+="):
            v = self.rv(I, fn, args, 0)
            if isT(v, "it"):
                v = v.a[0]
            I.store(this, v if op == "=" else mk("str", "cat", I.load(this), v if isT(v) else mk("c", v)))
            return this
        v = I.load(this)
        if n in ("size", "length"):
            return I.scalar(mk("strlen", v), fn["ret"])
        if n == "empty":
            return I.scalar(mk("strempty", v), fn["ret"])
        if n in ("c_str", "data"):
            return ref(("S", v))
        if n == "append":
            a = args[0]
            if isT(a, "it"):
                a = a.a[0]
            I.store(this, mk("str", "cat", v, a))
            return this
        if I.kind(fn["ret"]) == "rec":
            return mk("str", n, v)
        raise Undecided("string::" + n)

    # ---- free functions ----
    def value_eq(self, I, a, b):
        """C++ equality of two element values -> bool (may split)"""
        a = 0 if a is ZERO and not isT(b, "obj") else a
        b = 0 if b is ZERO and not isT(a, "obj") else b
        if isT(a, "obj") or isT(b, "obj"):
            keys = set()
            for x in (a, b):
                while isT(x, "obj"):
                    keys |= set(x.d)
                    x = x.a[0]
            return all(self.value_eq(I, I.select(a, k), I.select(b, k)) for k in sorted(keys, key=str))
        if isinstance(a, int) and b is NULL or isinstance(b, int) and a is NULL:
            return True
        return bool(I.truth(I.eqterm(a, b)))

    def lt(self, I, a, b):
        a = 0 if a is ZERO else a
        b = 0 if b is ZERO else b
        return I.truth(I.compare("<", a, b))

    def callv(self, I, f, args, ftype=None):
        fv = I.peek(f) if isT(f, "ref") else f
        r = I.invoke(f if isT(f, "ref") else fv, args, I.curloc)
        return r

    def free(self, I, fn, args, node):
        n, op, q = fn["n"], fn.get("op"), fn["q"]
        ps = fn["params"]
        if n in ("move", "forward", "as_const", "addressof", "__addressof", "move_if_noexcept", "launder", "ref", "cref") and len(args) == 1:
            if n in ("ref", "cref"):
                return args[0]
            return args[0]
        if n in ("min", "max") and len(args) == 2:
            a, b = self.rv(I, fn, args, 0), self.rv(I, fn, args, 1)
            lt = self.lt(I, b, a) if n == "min" else self.lt(I, a, b)
            return args[1] if lt else args[0]
        if n in ("min", "max") and len(args) == 1 and isT(args[0], "seq"):
            els = self.elements(I, args[0])
            best = els[0]
            for e in els[1:]:
                if self.lt(I, e, best) if n == "min" else self.lt(I, best, e):
                    best = e
            return best
        if n == "clamp":
            v, lo, hi = (self.rv(I, fn, args, i) for i in range(3))
            return args[1] if self.lt(I, v, lo) else args[2] if self.lt(I, hi, v) else args[0]
        if n == "swap" and len(args) == 2:
            a, b = I.load(args[0]), I.load(args[1])
            if isT(a) and a.op == "seq" or (I.p.rec(ps[0]["t"]) and I.p.rec(ps[0]["t"])["q"] in CONT):
                I.event("swap", args[0], args[1])
            I.store(args[0], b)
            I.store(args[1], a)
            return VOID
        if n == "exchange":
            old = I.load(args[0])
            v = self.rv(I, fn, args, 1)
            t0 = I.p.strip(ps[0]["t"])
            t1 = I.p.strip(ps[1]["t"])
            if I.kind(t0) in ("int", "bool") and I.kind(t1) in ("int", "bool"):
                v = I.int_cast(v, t1, t0)
            I.store(args[0], v)
            return I.scalar(old, t0)
        if n == "get" and fn.get("targs"):
            t0 = fn["targs"][0]
            pt = I.p.strip(ps[0]["t"])
            rec = I.p.rec(pt)
            if isinstance(t0, dict):
                k = int(t0["i"])
            else:
                k = rec["targs"].index(t0) if t0 in rec["targs"] else None
            if k is None:
                raise Undecided("std::get")
            if rec["q"] == "std::array":
                return self.sub(args[0], ("i", k))
            if rec["q"] == "std::pair":
                return self.sub(args[0], "first" if k == 0 else "second")
            r = self.sub(args[0], k)
            et = rec["targs"][k]
            if not isinstance(et, dict) and I.kind(et) == "ref":
                return I.peek(r)
            return r
        if n == "apply":
            tup = args[1]
            rec = I.p.rec(ps[1]["t"])
            el = []
            if rec["q"] == "std::array":
                el = [self.sub(tup, ("i", k)) for k in range(int(rec["targs"][1]["i"]))]
            else:
                for k, t in enumerate(rec["targs"]):
                    r = self.sub(tup, k)
                    el.append(I.peek(r) if I.kind(t) == "ref" else r)
            return I.invoke(args[0], el, I.curloc)
        if n in ("invoke", "__invoke"):
            return I.invoke(args[0], args[1:], I.curloc)
        if n in ("make_tuple", "tie", "forward_as_tuple", "make_pair"):
            d = {}
            for i in range(len(args)):
                key = i if n != "make_pair" else ("first", "second")[i]
                d[key] = args[i] if n in ("tie", "forward_as_tuple") else self.copied(I, self.rv(I, fn, args, i))
            return obj(UNINIT, d)
        if n in ("make_shared",):
            return self.make_shared(I, fn, args, node)
        if n == "to_string":
            return mk("str", "num", self.rv(I, fn, args, 0))
        if n == "yield":
            I.event("yield")
            return VOID
        if n == "get_id":
            return mk("opaque", "thread_id")
        if n in ("sleep_for", "sleep_until"):
            I.event("sleep")
            return VOID
        if n == "atomic_thread_fence":
            if self.atomic_hook:
                self.atomic_hook(I, fn, None, args)
            I.event("fence", ORD.get(args[0], "?"))
            return VOID
        if n in ("assert", "abort", "terminate"):
            raise Infeasible()
        if n in ("begin", "end", "cbegin", "cend", "size", "empty", "data", "ssize") and len(args) == 1:
            rec = I.p.rec(ps[0]["t"])
            s = I.as_seq(I.load(args[0]))
            if n in ("begin", "cbegin", "data"):
                return mk("it", args[0], s.a[1])
            if n in ("end", "cend"):
                return mk("it", args[0], s.a[2])
            sz = lin_add(s.a[2], s.a[1], -1)
            return sz if n != "empty" else teq(sz, 0)
        if n in ("distance",):
            a, b = self.rv(I, fn, args, 0), self.rv(I, fn, args, 1)
            if isT(a, "it") and isT(b, "it"):
                return lin_add(b.a[1], a.a[1], -1)
        if n in ("next", "prev"):
            a = self.rv(I, fn, args, 0)
            if isT(a, "it"):
                d = args[1] if len(args) > 1 else 1
                return mk("it", a.a[0], lin_add(a.a[1], self.off(d), 1 if n == "next" else -1))
        if n == "advance":
            a = I.load(args[0])
            if isT(a, "it"):
                I.store(args[0], mk("it", a.a[0], lin_add(a.a[1], self.off(self.rv(I, fn, args, 1)))))
                return VOID
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(args) == 2:
            r0, r1 = I.p.rec(ps[0]["t"]), I.p.rec(ps[1]["t"])
            qs = [r["q"] if r else None for r in (r0, r1)]
            if any((x or "").startswith("std::_Rb_tree_") for x in qs):
                return I.choose(2)  # the contents of a map are not modelled
            if any(x in ITER for x in qs):
                return I.compare(op, I.load(args[0]), I.load(args[1]))
            if any(x in SP for x in qs if x):
                vs = []
                for i, x in enumerate(qs):
                    v = I.load(args[i]) if x in SP else NULL
                    vs.append(NULL if v is ZERO else v)
                return I.compare(op, vs[0], vs[1])
            if any(x == "std::optional" for x in qs if x):
                raise Undecided("optional comparison")
            if qs[0] == "std::bitset":
                pass
            if qs[0] in ("std::thread::id",) or (qs[0] or "").startswith("std::basic_string") or "basic_string" in str(qs):
                return I.scalar(mk("streq", op, self.rv(I, fn, args, 0), self.rv(I, fn, args, 1)), fn["ret"])
            if qs[0] == "std::array" or qs[0] in CONT:
                raise Undecided("container comparison")
        if op == "-" and len(args) == 2:
            a, b = self.rv(I, fn, args, 0), self.rv(I, fn, args, 1)
            if isT(a, "it") and isT(b, "it"):
                return lin_add(a.a[1], b.a[1], -1)
        if op == "+" and len(args) == 2:
            a, b = self.rv(I, fn, args, 0), self.rv(I, fn, args, 1)
            if isT(b, "it") and not isT(a, "it") and linear(a):
                return mk("it", b.a[0], lin_add(b.a[1], a))
            if I.p.rec(fn["ret"]) and "basic_string" in I.p.rec(fn["ret"])["q"]:
                return mk("str", "cat", a if isT(a) else mk("c", a), b if isT(b) else mk("c", b))
        if op in ("&", "|", "^") and len(args) == 2 and I.p.rec(ps[0]["t"]) and I.p.rec(ps[0]["t"])["q"] == "std::bitset":
            N = self.nbits(I.p.rec(ps[0]["t"]))
            d = {}
            for k in range(N):
                a, b = self.bit(I, args[0], k), self.bit(I, args[1], k)
                x, y = I.truth(a), I.truth(b)
                d[("b", k)] = int(x & y if op == "&" else x | y if op == "|" else x ^ y)
            return obj(UNINIT, d)
        if op == "<<" and len(args) == 2:
            v = self.rv(I, fn, args, 1) if I.kind(ps[1]["t"]) == "ref" else args[1]
            if isT(v, "it"):
                v = v.a[0]
            if isT(v, "ref") and v.a[0][0] == "S":
                v = mk("str", v.a[0][1])
            if isinstance(v, int) and I.p.types[I.p.strip(ps[1]["t"])]["s"] in ("char", "const char"):
                v = mk("str", chr(v % 256))
            I.event("out", args[0], v, "")
            return args[0]
        if n in ("endl", "flush", "ends"):
            if n == "endl":
                I.event("out", args[0], mk("str", "\n"), "endl")
            return args[0]
        if n == "duration_cast" or q.startswith("std::chrono"):
            return mk("opaque", n)
        if n in ("remove", "remove_if", "find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "count", "count_if",
                 "for_each", "copy", "fill", "fill_n", "copy_if", "transform", "copy_n"):
            return self.algorithm(I, n, fn, args)
        if n == "make_optional":
            return obj(UNINIT, {"has": 1, "val": self.copied(I, self.rv(I, fn, args, 0))})
        if n in ("erase", "erase_if"):
            c = args[0]
            s = I.as_seq(I.load(c))
            els = self.elements(I, s)
            v = self.rv(I, fn, args, 1) if n == "erase" else None
            if els is None:
                if n == "erase_if":
                    raise Undecided("erase_if")
                I.store(c, self.filtered(I, s, s.a[1], s.a[2], v)[0])
                I.event("remove", c, s.a[1], s.a[2], v)
                return I.fresh("erased")
            keep = [e for e in els if not (self.value_eq(I, e, v) if n == "erase" else I.truth(I.invoke(args[1], [I.temp_of(e)], I.curloc)))]
            self.setlist(I, c, keep)
            return len(els) - len(keep)
        raise Undecided(f"unmodelled function {q} at {I.where()}")

    def filtered(self, I, s, lo, hi, v):
        b = mk("filtered", s, lo, hi, v)
        e = mk("rmend", s, lo, hi, v)
        ATOMB.setdefault(e, (0, SIZE_MAX))
        I.facts.assume(tle(lo, e))
        I.facts.assume(tle(e, hi))
        return seq(b, s.a[1], e, ()), e

    def algorithm(self, I, n, fn, args):
        ps = fn["params"]
        a, b = args[0], args[1]
        if not (isT(a, "it") and isT(b, "it")) and n not in ("fill_n", "copy_n"):
            raise Undecided("algorithm " + n + " at " + I.where())
        cont = a.a[0]
        s = I.as_seq(I.load(cont))
        lo, hi = a.a[1], b.a[1] if isT(b, "it") else None
        conc = isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64

        def el(k):
            return self.sub(cont, ("i", k))

        if n == "remove":
            v = self.rv(I, fn, args, 2)
            if conc:
                out = []
                for k in range(lo, hi):
                    x = I.load(el(k))
                    x = 0 if x is ZERO else x
                    if not self.value_eq(I, x, v):
                        out.append(x)
                for k, x in enumerate(out):
                    I.store(el(lo + k), x)
                return mk("it", cont, lo + len(out))
            I.event("remove", cont, lo, hi, v)
            ns, e = self.filtered(I, s, lo, hi, v)
            I.store(cont, seq(ns.a[0], s.a[1], s.a[2], ()))
            return mk("it", cont, e)
        if n in ("find", "count") and conc:
            v = self.rv(I, fn, args, 2)
            c = 0
            for k in range(lo, hi):
                if self.value_eq(I, I.load(el(k)), v):
                    if n == "find":
                        return mk("it", cont, k)
                    c += 1
            return mk("it", cont, hi) if n == "find" else c
        if n == "find":
            v = self.rv(I, fn, args, 2)
            k = mk("found", s, lo, hi, v)
            ATOMB.setdefault(k, (0, SIZE_MAX))
            I.facts.assume(tle(lo, k))
            I.facts.assume(tle(k, hi))
            return mk("it", cont, k)
        if n in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if", "for_each") and conc:
            c = 0
            for k in range(lo, hi):
                r = I.invoke(args[2], [el(k)], I.curloc)
                if n == "for_each":
                    continue
                t = I.truth(r)
                if n == "find_if" and t or n == "find_if_not" and not t:
                    return mk("it", cont, k)
                if n == "any_of" and t or n == "none_of" and t or n == "all_of" and not t:
                    return int(n == "any_of")
                c += int(t)
            if n in ("find_if", "find_if_not"):
                return mk("it", cont, hi)
            return c if n == "count_if" else int(n != "any_of") if n != "for_each" else self.rv(I, fn, args, 2)
        if n in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "for_each"):
            return self.alg_loop(I, n, fn, args, cont, lo, hi)
        if n == "copy" and isT(args[2], "it"):
            d = args[2]
            ds = I.as_seq(I.load(d.a[0]))
            w = seq(s.a[0], lo, hi, s.a[3])
            if I.truth(teq(d.a[1], ds.a[1])) and I.truth(teq(lin_add(hi, lo, -1), lin_add(ds.a[2], ds.a[1], -1))):
                I.store(d.a[0], w)
                return mk("it", d.a[0], hi)
            if conc:
                for k in range(lo, hi):
                    I.store(self.sub(d.a[0], ("i", lin_add(d.a[1], k - lo))), I.load(el(k)))
                return mk("it", d.a[0], lin_add(d.a[1], hi - lo))
            # overwrite of a prefix
            I.store(d.a[0], seq(mk("overlay", ds, d.a[1], w), ds.a[1], ds.a[2], ()))
            return mk("it", d.a[0], lin_add(d.a[1], lin_add(hi, lo, -1)))
        if n == "fill":
            v = self.rv(I, fn, args, 2)
            I.store(cont, seq(s.a[0], s.a[1], s.a[2], s.a[3] + (("fill", lo, hi, v),)))
            return VOID
        raise Undecided("algorithm " + n + " at " + I.where())

    def alg_loop(self, I, n, fn, args, cont, lo, hi):
        """for_each/find_if/... over a range of unknown length: a synthetic loop"""
        root = I.new_temp(None)
        I.mem[root] = mk("it", cont, lo)
        res = I.new_temp(None)
        I.mem[res] = 0
        fref = args[2] if isT(args[2], "ref") else I.temp_of(args[2])

        def cond():
            it = I.mem[root]
            return not I.truth(I.eqterm(it.a[1], hi))

        from .absint import Brk

        def body():
            it = I.mem[root]
            r = I.invoke(fref, [I.it_ref(it)], I.curloc)
            if n == "for_each":
                return
            t = I.truth(r)
            if n in ("find_if", "any_of", "none_of") and t or n in ("find_if_not", "all_of") and not t:
                I.mem[res] = 1
                raise Brk()

        def inc():
            it = I.mem[root]
            I.mem[root] = mk("it", cont, lin_add(it.a[1], 1))

        # finish ranges that start at lo and end at hi: the trip count is hi-lo
        I.loop(("alg", I.curloc), cond, inc, body)
        it, hit = I.mem.pop(root), I.mem.pop(res)
        if n in ("find_if", "find_if_not"):
            return it
        if n == "for_each":
            return VOID
        return hit if n == "any_of" else 1 - hit
