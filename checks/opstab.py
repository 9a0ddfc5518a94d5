"""Operations x lock variants analysed by checks/ops.py; tools/gen_ops.py writes driver/ops.cc from this table."""
from .types import R, Wr, L, can, lock, plist

# variant -> (declaration of `lock`, permissions of the transaction, static permissions of the lock, read-only view?)
VARIANTS = {}


def direct(name, ps):
    VARIANTS[name] = (f"auto lock = w.StartTransaction<{plist(ps)}>();", ps, ps, False)


def sub(name, ps, qs):
    VARIANTS[name] = (f"auto l0 = w.StartTransaction<{plist(ps)}>(); {lock(qs)} lock = l0;", ps, qs, False)


def ro(name, ps):
    r = can(ps)[0]
    VARIANTS[name] = (f"auto l0 = w.StartTransaction<{plist(ps)}>(); auto lock = l0.ReadOnlySubset();", ps, (R(*sorted(r)),), True)


direct("none", ())
direct("rA", (R("A"),))
direct("rall", ("RA",))
direct("wA", (Wr("A"),))
direct("wBrA", (Wr("B"), R("A")))
direct("wall", ("WA",))
direct("ar", ("AR",))
direct("nest", (L(Wr("A")), R("B")))
sub("s_wA_rA", (Wr("A"),), (R("A"),))
sub("s_ar_wA", ("AR",), (Wr("A"),))
sub("s_ar_rA", ("AR",), (R("A"),))
sub("s_ar_none", ("AR",), ())
sub("s_ar_wall", ("AR",), ("WA",))
ro("v_ar", ("AR",))
ro("v_wA", (Wr("A"),))
direct("rG", (R("G"),))
direct("wG", (Wr("G"),))
direct("wGA", (Wr("G", "A"),))
sub("s_ar_wG", ("AR",), (Wr("G"),))
sub("s_ar_rG", ("AR",), (R("G"),))
sub("s_wG_rG", (Wr("G"),), (R("G"),))
ro("v_wG", (Wr("G"),))

# with a fourth component type (configuration "wide")
direct("rC", (R("C"),))
direct("wCrB", (Wr("C"), R("B")))
sub("s_ar_wC", ("AR",), (Wr("C"),))
WIDEVAR = ("rC", "wCrB", "s_ar_wC", "ar")

E = "const Entity &e"
# op -> (parameters, body, needed permission of the lock type, kind)
OPS = {
    "exists": (E, 'observe("result", (bool)e.Exists(lock));', None),
    "existed": (E, 'observe("result", (bool)e.Existed(lock));', None),
    "hasA": (E, 'observe("result", (bool)e.Has<A>(lock));', None),
    "hasAB": (E, 'observe("result", (bool)e.Has<A, B>(lock));', None),
    "hasnone": (E, 'observe("result", (bool)e.Has<>(lock));', None),
    "hadA": (E, 'observe("result", (bool)e.Had<A>(lock));', None),
    "hadBA": (E, 'observe("result", (bool)e.Had<B, A>(lock));', None),
    "getc": (E, 'auto &r = e.Get<const A>(lock); observe("result", r);', ("R", "A")),
    "getm": (E, 'auto &r = e.Get<A>(lock); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r);', ("W", "A")),
    "getr": (E, 'auto &r = e.Get<A>(lock); static_assert(std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r);', ("RO", "A")),
    "prev": (E, 'auto &r = e.GetPrevious<A>(lock); observe("result", r);', ("R", "A")),
    "prevc": (E, 'auto &r = e.GetPrevious<const A>(lock); observe("result", r);', ("R", "A")),
    "setref": (E + ", A &val", 'auto &r = e.Set<A>(lock, val); observe("result", r);', ("W", "A")),
    "setarg": (E + ", A &val", 'auto &r = e.Set<A>(lock, A(val)); observe("result", r);', ("W", "A")),
    "setdef": (E, 'auto &r = e.Set<A>(lock); observe("result", r);', ("W", "A")),
    "setB": (E + ", B &val", 'auto &r = e.Set<B>(lock, val); observe("result", r);', ("W", "B")),
    "getB": (E, 'auto &r = e.Get<B>(lock); observe("result", r);', ("W", "B")),
    "unsetA": (E, "e.Unset<A>(lock);", "AR"),
    "unsetBA": (E, "e.Unset<B, A>(lock);", "AR"),
    "unsetAB_eA": ("const Entity &eA", "eA.Unset<A, B>(lock);", "AR"),
    "unsetBA_eB": ("const Entity &eB", "eB.Unset<B, A>(lock);", "AR"),
    "unsetAB_eM": ("const Entity &eM", "eM.Unset<A, B>(lock);", "AR"),
    "destroy": (E, "e.Destroy(lock);", "AR"),
    "destroym": ("Entity &em", "em.Destroy(lock); observe(\"handle\", em);", "AR"),
    "destroy_eA": ("const Entity &eA", "eA.Destroy(lock);", "AR"),
    "destroy_eB": ("const Entity &eB", "eB.Destroy(lock);", "AR"),
    "destroy_eM": ("const Entity &eM", "eM.Destroy(lock);", "AR"),
    "setA_eM": ("const Entity &eM, A &val", 'auto &r = eM.Set<A>(lock, val); observe("result", r);', "AR"),
    "setA_eB": ("const Entity &eB, A &val", 'auto &r = eB.Set<A>(lock, A(val)); observe("result", r);', "AR"),
    "getA_eM": ("const Entity &eM", 'auto &r = eM.Get<A>(lock); observe("result", r);', "AR"),
    "new": ("", 'Entity n = lock.NewEntity(); observe("new", n);', "AR"),
    "entities": ("", 'auto v = lock.Entities(); observe("view", v);', None),
    "pentities": ("", 'auto v = lock.PreviousEntities(); observe("view", v);', None),
    "entitiesA": ("", 'auto v = lock.template EntitiesWith<A>(); observe("view", v);', None),
    "pentitiesA": ("", 'auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v);', None),
    "ghas": ("", 'observe("result", (bool)lock.template Has<G>());', None),
    "ghad": ("", 'observe("result", (bool)lock.template Had<G>());', None),
    "ggetc": ("", 'auto &r = lock.template Get<const G>(); observe("result", r);', ("R", "G")),
    "ggetm": ("", 'auto &r = lock.template Get<G>(); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r);', ("W", "G")),
    "ggetr": ("", 'auto &r = lock.template Get<G>(); observe("result", r);', ("RO", "G")),
    "gprev": ("", 'auto &r = lock.template GetPrevious<G>(); observe("result", r);', ("R", "G")),
    "gsetref": ("G &val", 'auto &r = lock.template Set<G>(val); observe("result", r);', ("W", "G")),
    "gsetarg": ("G &val", 'auto &r = lock.template Set<G>(G(val)); observe("result", r);', ("W", "G")),
    "gsetdef": ("", 'auto &r = lock.template Set<G>(); observe("result", r);', ("W", "G")),
    "gunset": ("", "lock.template Unset<G>();", "AR"),
}


WIDEOPS = {
    "hasC": (E, 'observe("result", (bool)e.Has<C>(lock));', None),
    "hasCB": (E, 'observe("result", (bool)e.Has<C, B>(lock));', None),
    "hadC": (E, 'observe("result", (bool)e.Had<C>(lock));', None),
    "getcC": (E, 'auto &r = e.Get<const C>(lock); observe("result", r);', ("R", "C")),
    "prevC": (E, 'auto &r = e.GetPrevious<C>(lock); observe("result", r);', ("R", "C")),
    "getC": (E, 'auto &r = e.Get<C>(lock); observe("result", r);', ("W", "C")),
    "setC": (E + ", C &val", 'auto &r = e.Set<C>(lock, val); observe("result", r);', ("W", "C")),
    "unsetC": (E, "e.Unset<C>(lock);", "AR"),
    "unsetCA": (E, "e.Unset<C, A>(lock);", "AR"),
    "entitiesC": ("", 'auto v = lock.template EntitiesWith<C>(); observe("view", v);', None),
}
# operations of the general table also analysed there
WIDEALSO = ("exists", "hasA", "getm", "setref", "unsetBA", "destroy", "destroy_eB", "new", "ghas", "gsetref", "gunset")
OPS.update(WIDEOPS)


def permitted(need, var):
    S = can(VARIANTS[var][2], "ABGC")
    if need is None:
        return True
    if need == "AR":
        return S[2]
    m, k = need
    if m == "R":
        return k in S[0]
    if m == "W":
        return k in S[1]
    return k in S[0] and k not in S[1]


GV = ("rG", "wG", "wGA", "s_ar_wG", "s_ar_rG", "s_wG_rG", "v_wG")


def relevant(op, var):
    need = OPS[op][2]
    if not permitted(need, var):
        return False
    g = op.startswith("g") and not op.startswith("get")
    if var in GV and not g:
        return False
    if g and need is not None and var in ("rA", "wA", "nest", "wBrA", "s_wA_rA", "s_ar_wA", "s_ar_rA", "v_wA"):
        return False
    if need is None and var in ("nest", "wall", "wBrA", "s_ar_wall"):
        return False
    return True


def cases():
    return [(op, var) for op in OPS for var in VARIANTS if relevant(op, var) and op not in WIDEOPS and var not in WIDEVAR[:3]]


def wide_cases():
    return [(op, var) for op in WIDEOPS for var in WIDEVAR if permitted(OPS[op][2], var)] + [(op, "ar") for op in WIDEALSO]
