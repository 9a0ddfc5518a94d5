"""C27: entity views. Every operation for an arbitrary list, window, offset and count; loops summarised for a generic iteration."""
from .world import *

S = mk("init", ("in", "s"))
LIST = ref(("in", "s"))


def par(n):
    return mk("init", ("in", n))


NAMES = {"inc": 1, "inc_result": 1, "inc_post": 1, "dec": -1, "dec_result": -1, "dec_post": -1}


class View:
    def __init__(self, prog, cfg, scen):
        self.rec = base.Rec()
        self.cfg, self.scen = cfg, scen
        self.checked = cfg not in ("unchecked",)
        self.W = World(prog, self.rec, f"{scen} ({cfg})", on_mark=self.mark, rules=False)
        self.I = self.W.I
        self.size = mk("size", S)
        self.window = scen not in ("ctor_list", "ctor_none", "visit_list", "visit_list_back", "sub_list", "sub_none")
        self.start, self.end = (par("start"), par("end")) if self.window else (0, 0 if scen.endswith("none") else self.size)
        try:
            paths = self.W.R.run(scen)
        except (Undecided, LookupError) as e:
            self.rec.undecided("C27", "view", f"{scen} ({cfg})", str(e))
            return
        for p in paths:
            self.I.restore(p.snap)
            self.p = p
            self.rec.count("paths of view operations")
            self.marks = [e[1] for e in p.events if e[0] == "mark"]
            self.obs = {}
            for e in p.events:
                if e[0] == "observe":
                    self.obs[e[1]] = e[2]
            where = "?"
            if p.kind == "raise" and isinstance(p.val, tuple) and len(p.val) > 1 and isinstance(p.val[1], int):
                where = prog.loc(p.val[1])
            elif p.kind == "raise":
                where = next((prog.loc(e[-1]) for e in reversed(p.events) if e[0] == "throw"), "?")
            self.spot = where
            if "built" not in self.marks:
                self.refused()
                continue
            getattr(self, scen.split("_")[0])()
        self.rec.fns |= {prog.fns[i]["q"] for i in self.I.fns_seen}

    # preconditions: without run-time checks only valid windows and positions are the caller's right
    def mark(self, W, name):
        I = self.I
        if self.scen not in ("ctor_none", "sub_none") and name in ("begin", "built"):
            I.facts.assume(tle(self.size, 2**60))  # no vector of entities can be longer
        if name == "begin" and not self.checked:
            I.facts.assume(tle(self.start, self.end))
            I.facts.assume(tle(self.end, self.size))
        if name == "built" and not self.checked:
            pos = self.position()
            if pos is not None:
                I.facts.assume(tle(self.start, pos))
                I.facts.assume(tlt(pos, self.end))
            if self.scen.startswith("sub_"):
                if self.scen == "sub_none":
                    raise Undecided("default constructed view")
                I.facts.assume(tle(lin_add(self.start, par("offset")), self.end))
        if name == "built" and self.scen == "sub_count":
            if I.truth(tle(par("offset"), lin_add(self.end, self.start, -1))):
                I.truth(tle(par("count"), lin_add(lin_add(self.end, self.start, -1), par("offset"), -1)))

    def position(self):
        """the place in the list an access of this scenario is about"""
        n = self.scen[3:]
        if not self.scen.startswith("at_"):
            return None
        k = par("k")
        if n == "index":
            return k
        if n.startswith("minus"):
            return lin_add(self.end, k, -1)
        if n == "reverse":
            return lin_add(lin_add(self.end, k, -1), -1)
        if n == "reverse_base":
            return lin_add(lin_add(self.start, k), -1)
        return lin_add(lin_add(self.start, k), NAMES.get(n, 0))

    def possible(self, *conds):
        """can all these hold on this path?"""
        f = self.I.facts
        self.I.facts = f.copy()
        try:
            for c in conds:
                self.I.facts.assume(c)
            return True
        except Exception as e:
            if type(e).__name__ == "Infeasible":
                return False
            raise
        finally:
            self.I.facts = f

    def opaque(self):
        ok = {"init", "size", "cap", "ind", "indx", "lv", "lvx", "acc"}
        for l in self.I.facts.lins:
            if any(a.op not in ok for a in atoms_of(l)):
                return True
        return any(t.op not in ("eq", "le0", "not") for t in self.I.facts.atoms)

    def require(self, cond, rule, what):
        where = {"ctor": "Tecs::EntityView::EntityView", "visit": "Tecs::EntityView iteration", "at": "Tecs::EntityView element access",
                 "same": "Tecs::EntityView::iterator::operator==", "sub": "Tecs::EntityView::subview"}[self.scen.split("_")[0]]
        if cond is False and self.opaque():
            cond = None
        self.rec.require("C27", cond, rule, f"{where} [{self.scen}, {self.cfg}]", what,
                         lambda: [f"outcome {self.p.kind} {self.spot}", "where " + "; ".join(show(le0(l)) for l in self.I.facts.lins)[:400]])

    def valid(self):
        return [tle(self.start, self.end), tle(self.end, self.size)] if self.window else []

    def refused(self):
        """construction of the view does not succeed"""
        if self.p.kind != "raise":
            self.require(None, "window-checked", f"ends with {self.p.kind} before the view is built")
            return
        self.require(not self.possible(*self.valid()), "window-checked", f"constructing a view with a valid window throws at {self.spot}")

    def built(self):
        """in checked mode a constructed view has a valid window"""
        if self.checked and self.window:
            for c, what in ((tle(self.start, self.end), "starts after its end"), (tle(self.end, self.size), "ends beyond the list")):
                v = self.I.decide(c)
                self.require(True if v else False if self.possible(tnot(c)) else None, "window-checked", f"a view that {what} can be constructed")

    def agree(self, n, label="size"):
        """size(), empty() and begin()/end() agree with n"""
        I = self.I
        (_, sz), (_, em) = self.obs[label]
        self.same_term(sz, n, "size-agrees", "size()")
        self.truthy(em, tle(n, 0) if isT(n) else int(n <= 0), "size-agrees", "empty()")

    def same_term(self, a, b, rule, what):
        r = self.I.decide(teq(a, b)) if not (a is b) else True
        if r is None and linear(a) and linear(b):
            r = self.I.facts.decide_eq0(lin_add(a, b, -1))
        if r is None:
            r = False if isinstance(a, int) or self.simple(a) else None
        self.require(r, rule, f"{what} is {show(a)}, not {show(b)}")
        return r

    def simple(self, t):
        return all(a.op in ("init", "size") for a in atoms_of(t))

    def truthy(self, t, want, rule, what):
        if isinstance(t, int) or t in (ZERO,):
            got = 1 if t not in (0, ZERO) else 0
            t = got
        # both have the same truth value on every refinement
        bad = self.possible(t, tnot(want)) or self.possible(tnot(t), want)
        self.require(not bad, rule, f"{what} is {show(t)} but must be {show(want)}")

    # --- scenarios ---
    def ctor(self):
        self.built()
        if self.p.kind != "stop":
            self.require(False, "size-agrees", f"size(), empty(), begin() or end() of a valid view throws at {self.spot}")
            return
        n = lin_add(self.end, self.start, -1)
        self.agree(n)
        (_, beq), (_, bne), (_, req), (_, rne) = self.obs["ends"]
        zero = teq(n, 0)
        self.truthy(beq, zero, "size-agrees", "begin() == end()")
        self.truthy(bne, tnot(zero), "size-agrees", "begin() != end()")
        self.truthy(req, zero, "size-agrees", "rbegin() == rend()")
        self.truthy(rne, tnot(zero), "size-agrees", "rbegin() != rend()")

    def visit(self):
        self.built()
        down = self.scen.endswith(("back", "down"))
        self.loop(self.start, lin_add(self.end, self.start, -1), down)

    def loop(self, first, n, down=False):
        I, p = self.I, self.p
        rule = "visits-window-backwards" if down else "visits-window"
        if p.kind != "stop":
            self.require(False, rule, f"iterating a valid view throws at {self.spot}")
            return
        loops = [e[1] for e in p.events if e[0] == "loop"]
        if not loops:
            # no iteration at all, or a bounded number written out
            seen = [e[2][0][0] for e in p.events if e[0] == "observe" and e[1] == "visit"]
            self.same_term(len(seen), n, rule, "the number of entities visited")
            return
        if len(loops) > 1:
            self.require(None, rule, "several loops")
            return
        L = loops[0]
        for b in L.paths:
            if b["kind"] != "again":
                continue
            vis = [e for e in b["ev"] if e[0] == "observe" and e[1] == "visit"]
            self.require(len(vis) == 1, rule, f"{len(vis)} entities are visited in one step")
            keep = I.snap()
            I.facts = b["facts"].copy()
            for e in vis:
                r = e[2][0][0]
                want = lin_add(lin_add(lin_add(first, n), L.K, -1), -1) if down else lin_add(first, L.K)
                idx = self.index(r)
                if idx is None:
                    self.require(None if not isT(r, "ref") else False, rule, f"step k visits {show(r)}, not an element of the list")
                else:
                    eq = I.facts.decide_eq0(lin_add(idx, want, -1))
                    self.require(bool(eq) if eq is not None or all(a.op in ("init", "size", "ind") for a in atoms_of(idx)) else None, rule,
                                 f"step k={show(L.K)} visits element {show(idx)} of the list, not {show(want)}")
            I.restore(keep)
        exits = [e for e in p.events if e[0] == "loopexit"]
        if exits:
            self.require(None, rule, "the iteration is left early")
            return
        r = I.facts.decide_eq0(lin_add(L.KX, n, -1))
        self.require(r if r is not None else None if any(a.op not in ("init", "size", "indx") for l in I.facts.lins for a in atoms_of(l)) else False,
                     rule, f"the iteration does not end after exactly {show(n)} entities")

    def index(self, r):
        if isT(r, "ref") and r.a[0] == ("in", "s") and len(r.a[1]) >= 1 and isinstance(r.a[1][0], tuple) and r.a[1][0][0] == "i":
            return r.a[1][0][1]

    def at(self):
        """the access of an at_ scenario"""
        self.built()
        pos = self.position()
        inside = [tle(self.start, pos), tlt(pos, self.end)]
        k = par("k")
        if self.p.kind == "raise":
            # only positions reachable without wrapping around the address space are meaningful
            self.require(not self.possible(*inside), "access-inside-window", f"accessing position {show(pos)}, inside the window, throws at {self.spot}")
            return
        for c, what in zip(inside, ("before the window", "at or after the end of the window")):
            v = self.I.decide(c)
            if not self.checked:
                continue
            self.require(True if v else False if self.possible(tnot(c)) else True, "access-inside-window", f"position {show(pos)}, {what}, can be accessed")
        r = self.obs["at"][0][0]
        idx = self.index(r)
        if idx is None:
            self.require(None, "access-inside-window", f"refers to {show(r)}")
            return
        eq = self.I.facts.decide_eq0(lin_add(idx, pos, -1))
        self.require(bool(eq) if eq is not None or self.simple(idx) else None, "access-inside-window", f"position {show(pos)} yields element {show(idx)} of the list")

    def same(self):
        self.built()
        if self.p.kind != "stop":
            self.require(False, "iterator-equality", f"comparing iterators throws at {self.spot}")
            return
        (_, eq), (_, ne) = self.obs["same"]
        want = teq(par("j"), par("k"))
        self.truthy(eq, want, "iterator-equality", "a == b")
        self.truthy(ne, tnot(want), "iterator-equality", "a != b")

    def sub(self):
        self.built()
        off = par("offset")
        first = lin_add(self.start, off)
        rest = lin_add(self.end, first, -1)
        ok = [tle(0, rest)]
        if "sub" not in self.marks:
            if self.p.kind != "raise":
                self.require(None, "subview", "ends before the sub-view is built")
                return
            if self.scen == "sub_none":
                self.require(True, "subview", "")
                return
            if self.scen == "sub_count":
                ok.append(tle(par("count"), rest))
            self.require(not self.possible(*ok), "subview", f"a sub-view from a valid offset throws at {self.spot}")
            return
        if self.scen == "sub_none":
            n = self.obs["size"][0][1] if "size" in self.obs else None
            self.require(n in (0, ZERO), "subview", f"a sub-view of a view without a list has size {show(n)}")
            return
        if self.checked:
            v = self.I.decide(ok[0])
            self.require(True if v else False if self.possible(tnot(ok[0])) else True, "subview", "a sub-view from an offset beyond the window can be made")
        n = rest
        if self.scen == "sub_count" and self.I.decide(tle(par("count"), rest)):
            n = par("count")
        self.agree(n)
        self.loop(first, n)


RULES = {"C27": {
    "window-checked": "With checks on, construction throws exactly if start > end or end > list size.",
    "size-agrees": "size(), empty(), begin()==end() and rbegin()==rend() agree with end - start for every valid window.",
    "visits-window": "Generic step k of a forward iteration visits element start+k of the list; it ends after exactly end-start steps and never throws.",
    "visits-window-backwards": "Generic step k of a backward iteration visits element end-1-k; it ends after exactly end-start steps and never throws.",
    "access-inside-window": "Every way to access a position yields exactly that element, and with checks on throws exactly if it is outside the window.",
    "iterator-equality": "Iterators of one view are equal exactly at the same position.",
    "subview": "A sub-view from an offset inside the window covers the rest (or the requested count); beyond it throws with checks on.",
    "view": "The operations on views complete.",
}}
EXPLAIN = {"C27": "Each operation of EntityView and its iterators is interpreted abstractly for an arbitrary list, window, position, offset and count; "
           "the element accessed and the conditions under which it throws are compared as linear expressions; iterations are summarised for a generic step."}
ASSUME = ["Positions are compared as mathematical integers; a position that leaves the 64-bit range counts as outside the window.",
          "Without run-time checks only windows, positions and offsets inside the list are considered."]
SCEN = ["ctor_window", "ctor_list", "ctor_none", "visit_list", "visit_list_back", "visit_window", "visit_window_back", "visit_window_post",
        "visit_window_down", "visit_window_copy", "same", "same_views", "sub_rest", "sub_count", "sub_list", "sub_none"] + ["at_" + n for n in (
            "index plus arrow subscript minus plus_assign minus_assign plus_assign_result minus_assign_result inc inc_result inc_post "
            "inc_post_result dec dec_result dec_post dec_post_result plus_pure reverse reverse_base").split()]


def collect(thorough=False, note=None):
    items = []
    for cfg in ["checked", "unchecked"] + (["cxx17", "tracing", "header"] if thorough else []):
        base.export("view", cfg)
        items += [(cfg, s) for s in SCEN if not (cfg == "unchecked" and s == "sub_none")]
    return base.pmap(one, items)


def one(it):
    cfg, s = it
    return View(base.export("view", cfg), cfg, s).rec
