"""C28: entity ids. Comparison operators per case of the three-way relation of both fields; conversions by bit provenance."""
from .world import *
from .bits import bits
from engine.models import Models

EXTRA = {
    "default": (),
    "16-bit index and generation": ("-DTECS_ENTITY_INDEX_TYPE=uint16_t", "-DTECS_ENTITY_GENERATION_TYPE=uint16_t"),
    "16-bit instance identifier": ("-DTECS_ENTITY_ECS_IDENTIFIER_TYPE=uint16_t",),
}
WID = {"default": (32, 32, 8), "16-bit index and generation": (16, 16, 8), "16-bit instance identifier": (32, 32, 16)}
SCEN = ["ent_cmp", "ent_self", "ent_hash", "ent_null", "ent_round", "ent_int", "ent_make", "ent_pack"]
X, Y = mk("init", ("in", "x")), mk("init", ("in", "y"))


def field(e, f):
    return mk("sel", e, f)


FIELDS = {field(e, f): (e, f) for e in (X, Y) for f in ("index", "generation")}


def leaves(t, out):
    """what a term is computed from"""
    if isinstance(t, (tuple, list)):
        for x in t:
            leaves(x, out)
        return out
    if not isT(t):
        return out
    if t in FIELDS:
        out.add(t)
    elif t.op == "sel":
        out.add(t)
    elif t.op in ("ref", "init", "fresh", "ind", "havoc", "null"):
        out.add(t)
    elif t.op == "lin":
        leaves([a for a, _ in t.a[1]], out)
    else:
        leaves(t.a, out)
    return out


def depends(t, field, width):
    """bits of a field a condition can depend on, or None if not known"""
    got = set()

    def go(x, w):
        if isinstance(x, (int, str)) or not isT(x) or x is ZERO:
            return True
        if x.op in ("eq",):
            return go(x.a[0], 64) and go(x.a[1], 64)
        if x.op in ("and", "or", "not"):
            return all(go(y, 64) for y in x.a)
        if x.op == "le0":
            return go(x.a[0], 64)
        if x.op == "lin":
            return all(go(a, 64) for a, _ in x.a[1])
        if x is field:
            got.update(range(width))
            return True
        if x in FIELDS:
            return True
        if x.op in ("bv", "trunc"):
            for b in bits(x, w):
                if b is None:
                    return False
                if isinstance(b, tuple):
                    if b[0] is field:
                        got.add(b[1])
                    elif b[0] not in FIELDS:
                        return False
            return True
        return False

    return got if go(t, 64) else None


def plain(t):
    """only comparisons of whole fields"""
    if isinstance(t, int) or t is ZERO:
        return True
    if t.op in ("eq", "and", "or", "not", "le0"):
        return all(plain(x) for x in t.a)
    if t.op == "lin":
        return all(a in FIELDS for a, _ in t.a[1])
    return t in FIELDS


class Ent:
    def __init__(self, prog, cfg, scen):
        self.rec = base.Rec()
        self.cfg, self.scen = cfg, scen
        self.iw, self.gw, self.ew = WID[cfg]
        self.W = World(prog, self.rec, f"{scen}, {cfg}", on_mark=self.mark, rules=False)
        self.I = self.W.I
        try:
            paths = self.W.R.run(scen)
        except (Undecided, LookupError) as e:
            self.rec.undecided("C28", "id-operations", scen + ", " + cfg, str(e))
            return
        self.where = {"ent_cmp": "Tecs::Entity comparison", "ent_self": "Tecs::Entity comparison", "ent_hash": "std::hash<Tecs::Entity>",
                      "ent_null": "Tecs::Entity::operator bool / operator!", "ent_round": "Tecs::Entity conversion to and from uint64_t",
                      "ent_int": "Tecs::Entity conversion to and from uint64_t", "ent_make": "Tecs::Entity::Entity",
                      "ent_pack": "Tecs::GenerationWithIdentifier"}[scen] + f" ({cfg})"
        self.table = {}
        for p in paths:
            self.I.restore(p.snap)
            self.p = p
            if p.kind != "stop":
                self.rec.violation("C28", "id-operations", self.where, f"ends with {p.kind} {p.val}", [])
                continue
            self.rec.count("paths of id operations")
            ob = {}
            for e in p.events:
                if e[0] == "observe":
                    ob.setdefault(e[1], []).append([v for _, v in e[2]])
            getattr(self, scen)(ob)
        if scen == "ent_cmp":
            self.order()
        self.rec.fns |= set(self.W.I.seen) if hasattr(self.W.I, "seen") else set()

    def mark(self, W, name):
        if name != "begin":
            return
        I = self.I
        xi, yi, xg, yg = field(X, "index"), field(Y, "index"), field(X, "generation"), field(Y, "generation")
        if self.scen == "ent_cmp":
            self.split(xi, yi)
            self.split(xg, yg)
        else:
            I.truth(teq(xg, 0))

    def split(self, a, b):
        I = self.I
        k = I.choose(3)
        if k == 0:
            I.poke(ref(("in", "y"), (b.a[1],)), a)
        else:
            I.facts.assume(teq(a, b), False)
            I.facts.assume(tlt(a, b), k == 1)

    def sign(self, f):
        a, b = field(X, f), field(Y, f)
        return -1 if self.I.decide(tlt(a, b)) else 1 if self.I.decide(tlt(b, a)) else 0

    def opaque(self):
        """path conditions that are not comparisons of whole fields"""
        f = self.I.facts
        return [t for t in list(f.atoms) + [le0(l) for l in f.lins] if not plain(t)]

    def blind(self, t, s):
        """a bit of the only differing field the outcome cannot depend on"""
        for i, (f, w) in enumerate((("index", self.iw), ("generation", self.gw))):
            if s[i] and not s[1 - i]:
                got = set()
                for x in [t] + self.opaque():
                    for e in (X, Y):
                        g = depends(x, field(e, f), w)
                        if g is None:
                            return None
                        got |= g
                if len(got) < w:
                    return f"bit {min(set(range(w)) - got)} of their {f}"

    def value(self, t):
        """True/False if decided; 'split' if definitely both are possible; None unknown"""
        if not isT(t):
            return bool(t)
        d = self.I.decide(t)
        if d is not None:
            return bool(d)
        return "split" if plain(t) else None

    def require(self, cond, rule, what):
        self.rec.require("C28", cond, rule, self.where, what, lambda: [self.scen, "configuration " + self.cfg])

    # --- comparison ---
    def ent_cmp(self, ob):
        s = self.sign("index"), self.sign("generation")
        case = f"x.index {'=<>'[s[0]]} y.index, x.generation {'=<>'[s[1]]} y.generation"
        want = {"eq": s == (0, 0), "ne": s != (0, 0)}
        for k in ("eq", "ne"):
            t = ob[k][0][0]
            op = "==" if k == "eq" else "!="
            v = self.value(t)
            if v is want[k]:
                self.require(True, "equality", "")
            elif v is None or self.opaque():
                b = self.blind(t, s)
                self.require(False if b else None, "equality", f"x {op} y does not see {b}: {show(t)}" if b else f"{case}: {show(t)}")
            else:
                self.require(False, "equality", f"when {case}: '{op}' depends on more than that: {show(t)}" if v == "split" else
                             f"when {case}: x {op} y is {str(v).lower()}")
        r = tuple(self.value(ob[k][0][0]) for k in ("lt", "gt"))
        if self.opaque():
            r = (None, None)
        if None in r:
            b = self.blind(mk("and", ob["lt"][0][0], ob["gt"][0][0]), s)
            if b:
                self.require(False, "strict-total-order", f"x < y does not see {b}: {show(ob['lt'][0][0])}")
                r = ("blind",)
        if s in self.table and self.table[s][0] != r:
            r = (None, None) if None in r or None in self.table[s][0] else ("split", "split")
        self.table[s] = (r, case)

    def order(self):
        T = self.table
        bad = False
        for s, (r, case) in sorted(T.items()):
            if None in r:
                self.require(None, "strict-total-order", case)
                bad = True
                continue
            if "blind" in r:
                bad = True
                continue
            if "split" in r:
                self.require(False, "strict-total-order", f"when {case}: the order depends on more than these relations")
                bad = True
                continue
            n = sum(r)
            self.require(n == (0 if s == (0, 0) else 1), "strict-total-order",
                         f"when {case}: x < y is {str(r[0]).lower()} and y < x is {str(r[1]).lower()}")
            bad = bad or n != (0 if s == (0, 0) else 1)
        if bad or len(T) != 9:
            if len(T) != 9:
                self.require(None, "strict-total-order", f"{len(T)} of 9 cases reached")
            return
        # antisymmetric and total on the nine cases: transitive iff lexicographic
        lt = {s: r[0] for s, (r, _) in T.items()}
        for s in T:
            self.require(lt[s] == T[(-s[0], -s[1])][0][1], "strict-total-order", f"x < y and y < x disagree in case {s}")
        sg = lambda s, d: 0 if not s else s * d
        lex = any(all(lt[s] == (lambda k: k[0] < 0 or k[0] == 0 and k[1] < 0)(tuple(s[i] * d[i] for i in o)) for s in T)
                  for o in ((0, 1), (1, 0)) for d in ((1, 1), (1, -1), (-1, 1), (-1, -1)))
        cyc = [f"({s[0]:+d},{s[1]:+d})" for s in T if lt[s]]
        self.require(lex, "strict-total-order", "the order is not transitive: x < y exactly for the (index, generation) relations " + " ".join(cyc))

    def ent_self(self, ob):
        for k, w in (("eq", True), ("ne", False), ("lt", False), ("gt", False)):
            v = self.value(ob[k][0][0])
            self.require(None if v is None else v is w, "equality", f"an id and its copy: {k} is {v}")
        for g, i in ob["copy"]:
            self.require(g is field(X, "generation") and i is field(X, "index"), "equality",
                         f"a copied id is ({show(i)}, {show(g)})")

    # --- hash ---
    def ent_hash(self, ob):
        t = ob["hash"][0][0]
        ls = leaves(t, set())
        facts = set()
        leaves(list(self.p.facts.atoms), facts) if hasattr(self.p.facts, "atoms") else None
        bad = [x for x in ls | facts if x not in FIELDS]
        if any(x.op == "ref" for x in ls):
            self.require(False, "hash", f"the hash depends on the address of the id: {show(t)}")
        elif [x for x in bad if x.op != "ref"]:
            roots = {x for x in bad if "('G'" in str(x.a) or x.op == "init"}
            self.require(False if roots else None, "hash", f"the hash depends on {', '.join(show(x) for x in bad)[:150]}")
        else:
            self.require(True, "hash", "")

    # --- null ---
    def ent_null(self, ob):
        null = self.I.decide(teq(field(X, "generation"), 0))
        case = "generation zero" if null else "a nonzero generation"
        for k, w in (("bool", not null), ("not", bool(null))):
            t = ob[k][0][0]
            v = self.value(t)
            n = "bool(id)" if k == "bool" else "!id"
            if v == "split":
                self.require(False, "null", f"{n} of an id with {case} depends on {show(t)}")
            elif v is None:
                got = depends(t, field(X, "generation"), self.gw)
                if not null and got is not None and len(got) < self.gw:
                    self.require(False, "null", f"{n} does not see bit {min(set(range(self.gw)) - got)} of the generation: {show(t)}")
                else:
                    self.require(None, "null", f"{n} with {case}: {show(t)}")
            else:
                self.require(v is w, "null", f"{n} of an id with {case} is {str(v).lower()}")
        for k, w in (("nbool", False), ("nnot", True), ("neq", True)):
            v = self.value(ob[k][0][0])
            self.require(None if v is None else v is w, "null", f"default constructed id: {k} is {v}")
        g, i = ob["nfields"][0]
        self.require(None if isT(g) and g is not ZERO else g in (0, ZERO), "null", f"default constructed id has generation {g}")

    # --- conversions ---
    def same(self, t, atom, w, rule, what, total=64):
        b = bits(t, total)
        for i, x in enumerate(b):
            want = (atom, i) if i < w else 0
            if x == want:
                continue
            if x is None or isinstance(x, tuple) and x[0].op not in ("sel", "init", "mix"):
                return self.require(None, rule, f"{what}: bit {i} is not known ({show(t)})")
            return self.require(False, rule, f"{what}: bit {i} is {x if isinstance(x, int) else show(x[0]) + ' bit ' + str(x[1])}: {show(t)}")
        self.require(True, rule, "")

    def ent_round(self, ob):
        g, i = ob["back"][0]
        self.same(g, field(X, "generation"), self.gw, "round-trip", "generation after conversion to an integer and back", self.gw)
        self.same(i, field(X, "index"), self.iw, "round-trip", "index after conversion to an integer and back", self.iw)

    def ent_int(self, ob):
        if self.iw + self.gw == 64:
            self.same(ob["int"][0][0], mk("init", ("in", "v")), 64, "round-trip", "integer after conversion to an id and back")

    def ent_make(self, ob):
        g, i = ob["two"][0]
        gen, idx, eid = (mk("init", ("in", n)) for n in ("gen", "index", "id"))
        self.same(g, gen, self.gw, "packing", "generation of Entity(index, generation)", self.gw)
        self.same(i, idx, self.iw, "packing", "index of Entity(index, generation)", self.iw)
        e, g, i = ob["three"][0]
        self.same(e, eid, self.ew, "packing", "identifier of Entity(index, generation, identifier)", self.ew)
        self.same(g, gen, self.gw - self.ew, "packing", "generation of Entity(index, generation, identifier)", self.gw)
        self.same(i, idx, self.iw, "packing", "index of Entity(index, generation, identifier)", self.iw)

    def ent_pack(self, ob):
        gen, eid = (mk("init", ("in", n)) for n in ("gen", "id"))
        e, g = ob["pack"][0]
        self.same(e, eid, self.ew, "packing", "identifier recovered from a packed generation", self.ew)
        self.same(g, gen, self.gw - self.ew, "packing", "generation recovered from a packed generation", self.gw)
        self.same(ob["repack"][0][0], gen, self.gw, "packing", "generation taken apart and packed again", self.gw)


RULES = {"C28": {
    "equality": "In each of the nine cases of (index <,=,>) x (generation <,=,>), == is true exactly if both are equal and != is its negation; copies are equal.",
    "strict-total-order": "In the nine cases, exactly one of x<y, x==y, y<x holds, and < is lexicographic in the two fields (hence transitive).",
    "hash": "The hash is a function of the id's index and generation only.",
    "null": "operator bool is true exactly if the generation is nonzero, operator! is its negation; a default id is null.",
    "round-trip": "Bit provenance: every bit of the id after conversion to uint64_t and back is the same bit of the original.",
    "packing": "Bit provenance: generation and identifier recovered from a packed generation are the bits that were packed.",
    "id-operations": "The operations on ids complete.",
}}
EXPLAIN = {"C28": "Each operation on ids is interpreted abstractly for arbitrary field values, partitioned by the three-way relation of the fields "
           "(comparison) or by bit provenance (conversions, packing), for the default field types and two other documented type choices."}
ASSUME = ["std::hash<uint64_t> is a function of its argument."]
RUNS = [("checked", c) for c in EXTRA] + [("cxx17", "default"), ("unchecked", "default")]


def collect(thorough=False, note=None):
    items = []
    for config, c in RUNS:
        base.export("ent", config, EXTRA[c])
        items += [(config, c, s) for s in SCEN]
    return base.pmap(one, items)


def one(it):
    config, c, s = it
    for t in list(ATOMB):  # widths differ between the choices of field types
        if t in FIELDS or t.op == "init" and isinstance(t.a[0], tuple) and t.a[0][0] == "in":
            del ATOMB[t]
    return Ent(base.export("ent", config, EXTRA[c]), c, s).rec
